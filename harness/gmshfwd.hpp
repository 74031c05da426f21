// Written by tools/gen_gmshfwd.py

// Recording stand-ins for the mesher's functions.
namespace gmsh
{
void initialize(int a0, char ** a1, const bool a2, const bool a3)
{
  fwd::begin("initialize");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
}
}
namespace gmsh
{
int isInitialized()
{
  fwd::begin("isInitialized");
  return fwd::ret<int>();
}
}
namespace gmsh
{
void finalize()
{
  fwd::begin("finalize");
}
}
namespace gmsh
{
void open(const std::string & a0)
{
  fwd::begin("open");
  fwd::in(a0);
}
}
namespace gmsh
{
void merge(const std::string & a0)
{
  fwd::begin("merge");
  fwd::in(a0);
}
}
namespace gmsh
{
void write(const std::string & a0)
{
  fwd::begin("write");
  fwd::in(a0);
}
}
namespace gmsh
{
void clear()
{
  fwd::begin("clear");
}
}
namespace gmsh::option
{
void setNumber(const std::string & a0, const double a1)
{
  fwd::begin("option::setNumber");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::option
{
void getNumber(const std::string & a0, double & a1)
{
  fwd::begin("option::getNumber");
  fwd::in(a0);
  fwd::out(a1);
}
}
namespace gmsh::option
{
void setString(const std::string & a0, const std::string & a1)
{
  fwd::begin("option::setString");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::option
{
void getString(const std::string & a0, std::string & a1)
{
  fwd::begin("option::getString");
  fwd::in(a0);
  fwd::out(a1);
}
}
namespace gmsh::option
{
void setColor(const std::string & a0, const int a1, const int a2, const int a3, const int a4)
{
  fwd::begin("option::setColor");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
}
}
namespace gmsh::option
{
void getColor(const std::string & a0, int & a1, int & a2, int & a3, int & a4)
{
  fwd::begin("option::getColor");
  fwd::in(a0);
  fwd::out(a1);
  fwd::out(a2);
  fwd::out(a3);
  fwd::out(a4);
}
}
namespace gmsh::model
{
void add(const std::string & a0)
{
  fwd::begin("model::add");
  fwd::in(a0);
}
}
namespace gmsh::model
{
void remove()
{
  fwd::begin("model::remove");
}
}
namespace gmsh::model
{
void list(std::vector<std::string> & a0)
{
  fwd::begin("model::list");
  fwd::out(a0);
}
}
namespace gmsh::model
{
void getCurrent(std::string & a0)
{
  fwd::begin("model::getCurrent");
  fwd::out(a0);
}
}
namespace gmsh::model
{
void setCurrent(const std::string & a0)
{
  fwd::begin("model::setCurrent");
  fwd::in(a0);
}
}
namespace gmsh::model
{
void getFileName(std::string & a0)
{
  fwd::begin("model::getFileName");
  fwd::out(a0);
}
}
namespace gmsh::model
{
void setFileName(const std::string & a0)
{
  fwd::begin("model::setFileName");
  fwd::in(a0);
}
}
namespace gmsh::model
{
void getEntities(::gmsh::vectorpair & a0, const int a1)
{
  fwd::begin("model::getEntities");
  fwd::in(a1);
  fwd::out(a0);
}
}
namespace gmsh::model
{
void setEntityName(const int a0, const int a1, const std::string & a2)
{
  fwd::begin("model::setEntityName");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::model
{
void getEntityName(const int a0, const int a1, std::string & a2)
{
  fwd::begin("model::getEntityName");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
}
}
namespace gmsh::model
{
void getPhysicalGroups(::gmsh::vectorpair & a0, const int a1)
{
  fwd::begin("model::getPhysicalGroups");
  fwd::in(a1);
  fwd::out(a0);
}
}
namespace gmsh::model
{
void getEntitiesForPhysicalGroup(const int a0, const int a1, std::vector<int> & a2)
{
  fwd::begin("model::getEntitiesForPhysicalGroup");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
}
}
namespace gmsh::model
{
void getPhysicalGroupsForEntity(const int a0, const int a1, std::vector<int> & a2)
{
  fwd::begin("model::getPhysicalGroupsForEntity");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
}
}
namespace gmsh::model
{
int addPhysicalGroup(const int a0, const std::vector<int> & a1, const int a2, const std::string & a3)
{
  fwd::begin("model::addPhysicalGroup");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  return fwd::ret<int>();
}
}
namespace gmsh::model
{
void removePhysicalGroups(const ::gmsh::vectorpair & a0)
{
  fwd::begin("model::removePhysicalGroups");
  fwd::in(a0);
}
}
namespace gmsh::model
{
void setPhysicalName(const int a0, const int a1, const std::string & a2)
{
  fwd::begin("model::setPhysicalName");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::model
{
void removePhysicalName(const std::string & a0)
{
  fwd::begin("model::removePhysicalName");
  fwd::in(a0);
}
}
namespace gmsh::model
{
void getPhysicalName(const int a0, const int a1, std::string & a2)
{
  fwd::begin("model::getPhysicalName");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
}
}
namespace gmsh::model
{
void setTag(const int a0, const int a1, const int a2)
{
  fwd::begin("model::setTag");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::model
{
void getBoundary(const ::gmsh::vectorpair & a0, ::gmsh::vectorpair & a1, const bool a2, const bool a3, const bool a4)
{
  fwd::begin("model::getBoundary");
  fwd::in(a0);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::out(a1);
}
}
namespace gmsh::model
{
void getAdjacencies(const int a0, const int a1, std::vector<int> & a2, std::vector<int> & a3)
{
  fwd::begin("model::getAdjacencies");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
  fwd::out(a3);
}
}
namespace gmsh::model
{
void getEntitiesInBoundingBox(const double a0, const double a1, const double a2, const double a3, const double a4, const double a5, ::gmsh::vectorpair & a6, const int a7)
{
  fwd::begin("model::getEntitiesInBoundingBox");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a7);
  fwd::out(a6);
}
}
namespace gmsh::model
{
void getBoundingBox(const int a0, const int a1, double & a2, double & a3, double & a4, double & a5, double & a6, double & a7)
{
  fwd::begin("model::getBoundingBox");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
  fwd::out(a3);
  fwd::out(a4);
  fwd::out(a5);
  fwd::out(a6);
  fwd::out(a7);
}
}
namespace gmsh::model
{
int getDimension()
{
  fwd::begin("model::getDimension");
  return fwd::ret<int>();
}
}
namespace gmsh::model
{
int addDiscreteEntity(const int a0, const int a1, const std::vector<int> & a2)
{
  fwd::begin("model::addDiscreteEntity");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  return fwd::ret<int>();
}
}
namespace gmsh::model
{
void removeEntities(const ::gmsh::vectorpair & a0, const bool a1)
{
  fwd::begin("model::removeEntities");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::model
{
void removeEntityName(const std::string & a0)
{
  fwd::begin("model::removeEntityName");
  fwd::in(a0);
}
}
namespace gmsh::model
{
void getType(const int a0, const int a1, std::string & a2)
{
  fwd::begin("model::getType");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
}
}
namespace gmsh::model
{
void getParent(const int a0, const int a1, int & a2, int & a3)
{
  fwd::begin("model::getParent");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
  fwd::out(a3);
}
}
namespace gmsh::model
{
int getNumberOfPartitions()
{
  fwd::begin("model::getNumberOfPartitions");
  return fwd::ret<int>();
}
}
namespace gmsh::model
{
void getPartitions(const int a0, const int a1, std::vector<int> & a2)
{
  fwd::begin("model::getPartitions");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
}
}
namespace gmsh::model
{
void getValue(const int a0, const int a1, const std::vector<double> & a2, std::vector<double> & a3)
{
  fwd::begin("model::getValue");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::out(a3);
}
}
namespace gmsh::model
{
void getDerivative(const int a0, const int a1, const std::vector<double> & a2, std::vector<double> & a3)
{
  fwd::begin("model::getDerivative");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::out(a3);
}
}
namespace gmsh::model
{
void getSecondDerivative(const int a0, const int a1, const std::vector<double> & a2, std::vector<double> & a3)
{
  fwd::begin("model::getSecondDerivative");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::out(a3);
}
}
namespace gmsh::model
{
void getCurvature(const int a0, const int a1, const std::vector<double> & a2, std::vector<double> & a3)
{
  fwd::begin("model::getCurvature");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::out(a3);
}
}
namespace gmsh::model
{
void getPrincipalCurvatures(const int a0, const std::vector<double> & a1, std::vector<double> & a2, std::vector<double> & a3, std::vector<double> & a4, std::vector<double> & a5)
{
  fwd::begin("model::getPrincipalCurvatures");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
  fwd::out(a3);
  fwd::out(a4);
  fwd::out(a5);
}
}
namespace gmsh::model
{
void getNormal(const int a0, const std::vector<double> & a1, std::vector<double> & a2)
{
  fwd::begin("model::getNormal");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
}
}
namespace gmsh::model
{
void getParametrization(const int a0, const int a1, const std::vector<double> & a2, std::vector<double> & a3)
{
  fwd::begin("model::getParametrization");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::out(a3);
}
}
namespace gmsh::model
{
void getParametrizationBounds(const int a0, const int a1, std::vector<double> & a2, std::vector<double> & a3)
{
  fwd::begin("model::getParametrizationBounds");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
  fwd::out(a3);
}
}
namespace gmsh::model
{
int isInside(const int a0, const int a1, const std::vector<double> & a2, const bool a3)
{
  fwd::begin("model::isInside");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  return fwd::ret<int>();
}
}
namespace gmsh::model
{
void getClosestPoint(const int a0, const int a1, const std::vector<double> & a2, std::vector<double> & a3, std::vector<double> & a4)
{
  fwd::begin("model::getClosestPoint");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::out(a3);
  fwd::out(a4);
}
}
namespace gmsh::model
{
void reparametrizeOnSurface(const int a0, const int a1, const std::vector<double> & a2, const int a3, std::vector<double> & a4, const int a5)
{
  fwd::begin("model::reparametrizeOnSurface");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a5);
  fwd::out(a4);
}
}
namespace gmsh::model
{
void setVisibility(const ::gmsh::vectorpair & a0, const int a1, const bool a2)
{
  fwd::begin("model::setVisibility");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::model
{
void getVisibility(const int a0, const int a1, int & a2)
{
  fwd::begin("model::getVisibility");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
}
}
namespace gmsh::model
{
void setVisibilityPerWindow(const int a0, const int a1)
{
  fwd::begin("model::setVisibilityPerWindow");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::model
{
void setColor(const ::gmsh::vectorpair & a0, const int a1, const int a2, const int a3, const int a4, const bool a5)
{
  fwd::begin("model::setColor");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
}
}
namespace gmsh::model
{
void getColor(const int a0, const int a1, int & a2, int & a3, int & a4, int & a5)
{
  fwd::begin("model::getColor");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
  fwd::out(a3);
  fwd::out(a4);
  fwd::out(a5);
}
}
namespace gmsh::model
{
void setCoordinates(const int a0, const double a1, const double a2, const double a3)
{
  fwd::begin("model::setCoordinates");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
}
}
namespace gmsh::model::mesh
{
void generate(const int a0)
{
  fwd::begin("model::mesh::generate");
  fwd::in(a0);
}
}
namespace gmsh::model::mesh
{
void partition(const int a0, const std::vector<std::size_t> & a1, const std::vector<int> & a2)
{
  fwd::begin("model::mesh::partition");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::model::mesh
{
void unpartition()
{
  fwd::begin("model::mesh::unpartition");
}
}
namespace gmsh::model::mesh
{
void optimize(const std::string & a0, const bool a1, const int a2, const ::gmsh::vectorpair & a3)
{
  fwd::begin("model::mesh::optimize");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
}
}
namespace gmsh::model::mesh
{
void recombine()
{
  fwd::begin("model::mesh::recombine");
}
}
namespace gmsh::model::mesh
{
void refine()
{
  fwd::begin("model::mesh::refine");
}
}
namespace gmsh::model::mesh
{
void setOrder(const int a0)
{
  fwd::begin("model::mesh::setOrder");
  fwd::in(a0);
}
}
namespace gmsh::model::mesh
{
void getLastEntityError(::gmsh::vectorpair & a0)
{
  fwd::begin("model::mesh::getLastEntityError");
  fwd::out(a0);
}
}
namespace gmsh::model::mesh
{
void getLastNodeError(std::vector<std::size_t> & a0)
{
  fwd::begin("model::mesh::getLastNodeError");
  fwd::out(a0);
}
}
namespace gmsh::model::mesh
{
void clear(const ::gmsh::vectorpair & a0)
{
  fwd::begin("model::mesh::clear");
  fwd::in(a0);
}
}
namespace gmsh::model::mesh
{
void reverse(const ::gmsh::vectorpair & a0)
{
  fwd::begin("model::mesh::reverse");
  fwd::in(a0);
}
}
namespace gmsh::model::mesh
{
void affineTransform(const std::vector<double> & a0, const ::gmsh::vectorpair & a1)
{
  fwd::begin("model::mesh::affineTransform");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::model::mesh
{
void getNodes(std::vector<std::size_t> & a0, std::vector<double> & a1, std::vector<double> & a2, const int a3, const int a4, const bool a5, const bool a6)
{
  fwd::begin("model::mesh::getNodes");
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::out(a0);
  fwd::out(a1);
  fwd::out(a2);
}
}
namespace gmsh::model::mesh
{
void getNodesByElementType(const int a0, std::vector<std::size_t> & a1, std::vector<double> & a2, std::vector<double> & a3, const int a4, const bool a5)
{
  fwd::begin("model::mesh::getNodesByElementType");
  fwd::in(a0);
  fwd::in(a4);
  fwd::in(a5);
  fwd::out(a1);
  fwd::out(a2);
  fwd::out(a3);
}
}
namespace gmsh::model::mesh
{
void getNode(const std::size_t a0, std::vector<double> & a1, std::vector<double> & a2, int & a3, int & a4)
{
  fwd::begin("model::mesh::getNode");
  fwd::in(a0);
  fwd::out(a1);
  fwd::out(a2);
  fwd::out(a3);
  fwd::out(a4);
}
}
namespace gmsh::model::mesh
{
void setNode(const std::size_t a0, const std::vector<double> & a1, const std::vector<double> & a2)
{
  fwd::begin("model::mesh::setNode");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::model::mesh
{
void rebuildNodeCache(const bool a0)
{
  fwd::begin("model::mesh::rebuildNodeCache");
  fwd::in(a0);
}
}
namespace gmsh::model::mesh
{
void rebuildElementCache(const bool a0)
{
  fwd::begin("model::mesh::rebuildElementCache");
  fwd::in(a0);
}
}
namespace gmsh::model::mesh
{
void getNodesForPhysicalGroup(const int a0, const int a1, std::vector<std::size_t> & a2, std::vector<double> & a3)
{
  fwd::begin("model::mesh::getNodesForPhysicalGroup");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
  fwd::out(a3);
}
}
namespace gmsh::model::mesh
{
void getMaxNodeTag(std::size_t & a0)
{
  fwd::begin("model::mesh::getMaxNodeTag");
  fwd::out(a0);
}
}
namespace gmsh::model::mesh
{
void addNodes(const int a0, const int a1, const std::vector<std::size_t> & a2, const std::vector<double> & a3, const std::vector<double> & a4)
{
  fwd::begin("model::mesh::addNodes");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
}
}
namespace gmsh::model::mesh
{
void reclassifyNodes()
{
  fwd::begin("model::mesh::reclassifyNodes");
}
}
namespace gmsh::model::mesh
{
void relocateNodes(const int a0, const int a1)
{
  fwd::begin("model::mesh::relocateNodes");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::model::mesh
{
void getElements(std::vector<int> & a0, std::vector<std::vector<std::size_t> > & a1, std::vector<std::vector<std::size_t> > & a2, const int a3, const int a4)
{
  fwd::begin("model::mesh::getElements");
  fwd::in(a3);
  fwd::in(a4);
  fwd::out(a0);
  fwd::out(a1);
  fwd::out(a2);
}
}
namespace gmsh::model::mesh
{
void getElement(const std::size_t a0, int & a1, std::vector<std::size_t> & a2, int & a3, int & a4)
{
  fwd::begin("model::mesh::getElement");
  fwd::in(a0);
  fwd::out(a1);
  fwd::out(a2);
  fwd::out(a3);
  fwd::out(a4);
}
}
namespace gmsh::model::mesh
{
void getElementByCoordinates(const double a0, const double a1, const double a2, std::size_t & a3, int & a4, std::vector<std::size_t> & a5, double & a6, double & a7, double & a8, const int a9, const bool a10)
{
  fwd::begin("model::mesh::getElementByCoordinates");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a9);
  fwd::in(a10);
  fwd::out(a3);
  fwd::out(a4);
  fwd::out(a5);
  fwd::out(a6);
  fwd::out(a7);
  fwd::out(a8);
}
}
namespace gmsh::model::mesh
{
void getElementsByCoordinates(const double a0, const double a1, const double a2, std::vector<std::size_t> & a3, const int a4, const bool a5)
{
  fwd::begin("model::mesh::getElementsByCoordinates");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a4);
  fwd::in(a5);
  fwd::out(a3);
}
}
namespace gmsh::model::mesh
{
void getLocalCoordinatesInElement(const std::size_t a0, const double a1, const double a2, const double a3, double & a4, double & a5, double & a6)
{
  fwd::begin("model::mesh::getLocalCoordinatesInElement");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::out(a4);
  fwd::out(a5);
  fwd::out(a6);
}
}
namespace gmsh::model::mesh
{
void getElementTypes(std::vector<int> & a0, const int a1, const int a2)
{
  fwd::begin("model::mesh::getElementTypes");
  fwd::in(a1);
  fwd::in(a2);
  fwd::out(a0);
}
}
namespace gmsh::model::mesh
{
int getElementType(const std::string & a0, const int a1, const bool a2)
{
  fwd::begin("model::mesh::getElementType");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  return fwd::ret<int>();
}
}
namespace gmsh::model::mesh
{
void getElementProperties(const int a0, std::string & a1, int & a2, int & a3, int & a4, std::vector<double> & a5, int & a6)
{
  fwd::begin("model::mesh::getElementProperties");
  fwd::in(a0);
  fwd::out(a1);
  fwd::out(a2);
  fwd::out(a3);
  fwd::out(a4);
  fwd::out(a5);
  fwd::out(a6);
}
}
namespace gmsh::model::mesh
{
void getElementsByType(const int a0, std::vector<std::size_t> & a1, std::vector<std::size_t> & a2, const int a3, const std::size_t a4, const std::size_t a5)
{
  fwd::begin("model::mesh::getElementsByType");
  fwd::in(a0);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::out(a1);
  fwd::out(a2);
}
}
namespace gmsh::model::mesh
{
void getMaxElementTag(std::size_t & a0)
{
  fwd::begin("model::mesh::getMaxElementTag");
  fwd::out(a0);
}
}
namespace gmsh::model::mesh
{
void preallocateElementsByType(const int a0, const bool a1, const bool a2, std::vector<std::size_t> & a3, std::vector<std::size_t> & a4, const int a5)
{
  fwd::begin("model::mesh::preallocateElementsByType");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a5);
  fwd::out(a3);
  fwd::out(a4);
}
}
namespace gmsh::model::mesh
{
void getElementQualities(const std::vector<std::size_t> & a0, std::vector<double> & a1, const std::string & a2, const std::size_t a3, const std::size_t a4)
{
  fwd::begin("model::mesh::getElementQualities");
  fwd::in(a0);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::out(a1);
}
}
namespace gmsh::model::mesh
{
void addElements(const int a0, const int a1, const std::vector<int> & a2, const std::vector<std::vector<std::size_t> > & a3, const std::vector<std::vector<std::size_t> > & a4)
{
  fwd::begin("model::mesh::addElements");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
}
}
namespace gmsh::model::mesh
{
void addElementsByType(const int a0, const int a1, const std::vector<std::size_t> & a2, const std::vector<std::size_t> & a3)
{
  fwd::begin("model::mesh::addElementsByType");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
}
}
namespace gmsh::model::mesh
{
void getIntegrationPoints(const int a0, const std::string & a1, std::vector<double> & a2, std::vector<double> & a3)
{
  fwd::begin("model::mesh::getIntegrationPoints");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
  fwd::out(a3);
}
}
namespace gmsh::model::mesh
{
void getJacobians(const int a0, const std::vector<double> & a1, std::vector<double> & a2, std::vector<double> & a3, std::vector<double> & a4, const int a5, const std::size_t a6, const std::size_t a7)
{
  fwd::begin("model::mesh::getJacobians");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a5);
  fwd::in(a6);
  fwd::in(a7);
  fwd::out(a2);
  fwd::out(a3);
  fwd::out(a4);
}
}
namespace gmsh::model::mesh
{
void preallocateJacobians(const int a0, const int a1, const bool a2, const bool a3, const bool a4, std::vector<double> & a5, std::vector<double> & a6, std::vector<double> & a7, const int a8)
{
  fwd::begin("model::mesh::preallocateJacobians");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a8);
  fwd::out(a5);
  fwd::out(a6);
  fwd::out(a7);
}
}
namespace gmsh::model::mesh
{
void getJacobian(const std::size_t a0, const std::vector<double> & a1, std::vector<double> & a2, std::vector<double> & a3, std::vector<double> & a4)
{
  fwd::begin("model::mesh::getJacobian");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
  fwd::out(a3);
  fwd::out(a4);
}
}
namespace gmsh::model::mesh
{
void getBasisFunctions(const int a0, const std::vector<double> & a1, const std::string & a2, int & a3, std::vector<double> & a4, int & a5, const std::vector<int> & a6)
{
  fwd::begin("model::mesh::getBasisFunctions");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a6);
  fwd::out(a3);
  fwd::out(a4);
  fwd::out(a5);
}
}
namespace gmsh::model::mesh
{
void getBasisFunctionsOrientation(const int a0, const std::string & a1, std::vector<int> & a2, const int a3, const std::size_t a4, const std::size_t a5)
{
  fwd::begin("model::mesh::getBasisFunctionsOrientation");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::out(a2);
}
}
namespace gmsh::model::mesh
{
void getBasisFunctionsOrientationForElement(const std::size_t a0, const std::string & a1, int & a2)
{
  fwd::begin("model::mesh::getBasisFunctionsOrientationForElement");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
}
}
namespace gmsh::model::mesh
{
int getNumberOfOrientations(const int a0, const std::string & a1)
{
  fwd::begin("model::mesh::getNumberOfOrientations");
  fwd::in(a0);
  fwd::in(a1);
  return fwd::ret<int>();
}
}
namespace gmsh::model::mesh
{
void preallocateBasisFunctionsOrientation(const int a0, std::vector<int> & a1, const int a2)
{
  fwd::begin("model::mesh::preallocateBasisFunctionsOrientation");
  fwd::in(a0);
  fwd::in(a2);
  fwd::out(a1);
}
}
namespace gmsh::model::mesh
{
void getEdges(const std::vector<std::size_t> & a0, std::vector<std::size_t> & a1, std::vector<int> & a2)
{
  fwd::begin("model::mesh::getEdges");
  fwd::in(a0);
  fwd::out(a1);
  fwd::out(a2);
}
}
namespace gmsh::model::mesh
{
void getFaces(const int a0, const std::vector<std::size_t> & a1, std::vector<std::size_t> & a2, std::vector<int> & a3)
{
  fwd::begin("model::mesh::getFaces");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
  fwd::out(a3);
}
}
namespace gmsh::model::mesh
{
void createEdges(const ::gmsh::vectorpair & a0)
{
  fwd::begin("model::mesh::createEdges");
  fwd::in(a0);
}
}
namespace gmsh::model::mesh
{
void createFaces(const ::gmsh::vectorpair & a0)
{
  fwd::begin("model::mesh::createFaces");
  fwd::in(a0);
}
}
namespace gmsh::model::mesh
{
void getAllEdges(std::vector<std::size_t> & a0, std::vector<std::size_t> & a1)
{
  fwd::begin("model::mesh::getAllEdges");
  fwd::out(a0);
  fwd::out(a1);
}
}
namespace gmsh::model::mesh
{
void getAllFaces(const int a0, std::vector<std::size_t> & a1, std::vector<std::size_t> & a2)
{
  fwd::begin("model::mesh::getAllFaces");
  fwd::in(a0);
  fwd::out(a1);
  fwd::out(a2);
}
}
namespace gmsh::model::mesh
{
void addEdges(const std::vector<std::size_t> & a0, const std::vector<std::size_t> & a1)
{
  fwd::begin("model::mesh::addEdges");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::model::mesh
{
void addFaces(const int a0, const std::vector<std::size_t> & a1, const std::vector<std::size_t> & a2)
{
  fwd::begin("model::mesh::addFaces");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::model::mesh
{
void getKeys(const int a0, const std::string & a1, std::vector<int> & a2, std::vector<std::size_t> & a3, std::vector<double> & a4, const int a5, const bool a6)
{
  fwd::begin("model::mesh::getKeys");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a5);
  fwd::in(a6);
  fwd::out(a2);
  fwd::out(a3);
  fwd::out(a4);
}
}
namespace gmsh::model::mesh
{
void getKeysForElement(const std::size_t a0, const std::string & a1, std::vector<int> & a2, std::vector<std::size_t> & a3, std::vector<double> & a4, const bool a5)
{
  fwd::begin("model::mesh::getKeysForElement");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a5);
  fwd::out(a2);
  fwd::out(a3);
  fwd::out(a4);
}
}
namespace gmsh::model::mesh
{
int getNumberOfKeys(const int a0, const std::string & a1)
{
  fwd::begin("model::mesh::getNumberOfKeys");
  fwd::in(a0);
  fwd::in(a1);
  return fwd::ret<int>();
}
}
namespace gmsh::model::mesh
{
void getKeysInformation(const std::vector<int> & a0, const std::vector<std::size_t> & a1, const int a2, const std::string & a3, ::gmsh::vectorpair & a4)
{
  fwd::begin("model::mesh::getKeysInformation");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::out(a4);
}
}
namespace gmsh::model::mesh
{
void getBarycenters(const int a0, const int a1, const bool a2, const bool a3, std::vector<double> & a4, const std::size_t a5, const std::size_t a6)
{
  fwd::begin("model::mesh::getBarycenters");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a5);
  fwd::in(a6);
  fwd::out(a4);
}
}
namespace gmsh::model::mesh
{
void preallocateBarycenters(const int a0, std::vector<double> & a1, const int a2)
{
  fwd::begin("model::mesh::preallocateBarycenters");
  fwd::in(a0);
  fwd::in(a2);
  fwd::out(a1);
}
}
namespace gmsh::model::mesh
{
void getElementEdgeNodes(const int a0, std::vector<std::size_t> & a1, const int a2, const bool a3, const std::size_t a4, const std::size_t a5)
{
  fwd::begin("model::mesh::getElementEdgeNodes");
  fwd::in(a0);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::out(a1);
}
}
namespace gmsh::model::mesh
{
void getElementFaceNodes(const int a0, const int a1, std::vector<std::size_t> & a2, const int a3, const bool a4, const std::size_t a5, const std::size_t a6)
{
  fwd::begin("model::mesh::getElementFaceNodes");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::out(a2);
}
}
namespace gmsh::model::mesh
{
void getGhostElements(const int a0, const int a1, std::vector<std::size_t> & a2, std::vector<int> & a3)
{
  fwd::begin("model::mesh::getGhostElements");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
  fwd::out(a3);
}
}
namespace gmsh::model::mesh
{
void setSize(const ::gmsh::vectorpair & a0, const double a1)
{
  fwd::begin("model::mesh::setSize");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::model::mesh
{
void getSizes(const ::gmsh::vectorpair & a0, std::vector<double> & a1)
{
  fwd::begin("model::mesh::getSizes");
  fwd::in(a0);
  fwd::out(a1);
}
}
namespace gmsh::model::mesh
{
void setSizeAtParametricPoints(const int a0, const int a1, const std::vector<double> & a2, const std::vector<double> & a3)
{
  fwd::begin("model::mesh::setSizeAtParametricPoints");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
}
}
namespace gmsh::model::mesh
{
void setSizeCallback(std::function<double(int, int, double, double, double, double)> a0)
{
  fwd::begin("model::mesh::setSizeCallback");
  fwd::in(a0);
}
}
namespace gmsh::model::mesh
{
void removeSizeCallback()
{
  fwd::begin("model::mesh::removeSizeCallback");
}
}
namespace gmsh::model::mesh
{
void setTransfiniteCurve(const int a0, const int a1, const std::string & a2, const double a3)
{
  fwd::begin("model::mesh::setTransfiniteCurve");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
}
}
namespace gmsh::model::mesh
{
void setTransfiniteSurface(const int a0, const std::string & a1, const std::vector<int> & a2)
{
  fwd::begin("model::mesh::setTransfiniteSurface");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::model::mesh
{
void setTransfiniteVolume(const int a0, const std::vector<int> & a1)
{
  fwd::begin("model::mesh::setTransfiniteVolume");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::model::mesh
{
void setTransfiniteAutomatic(const ::gmsh::vectorpair & a0, const double a1, const bool a2)
{
  fwd::begin("model::mesh::setTransfiniteAutomatic");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::model::mesh
{
void setRecombine(const int a0, const int a1, const double a2)
{
  fwd::begin("model::mesh::setRecombine");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::model::mesh
{
void setSmoothing(const int a0, const int a1, const int a2)
{
  fwd::begin("model::mesh::setSmoothing");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::model::mesh
{
void setReverse(const int a0, const int a1, const bool a2)
{
  fwd::begin("model::mesh::setReverse");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::model::mesh
{
void setAlgorithm(const int a0, const int a1, const int a2)
{
  fwd::begin("model::mesh::setAlgorithm");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::model::mesh
{
void setSizeFromBoundary(const int a0, const int a1, const int a2)
{
  fwd::begin("model::mesh::setSizeFromBoundary");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::model::mesh
{
void setCompound(const int a0, const std::vector<int> & a1)
{
  fwd::begin("model::mesh::setCompound");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::model::mesh
{
void setOutwardOrientation(const int a0)
{
  fwd::begin("model::mesh::setOutwardOrientation");
  fwd::in(a0);
}
}
namespace gmsh::model::mesh
{
void removeConstraints(const ::gmsh::vectorpair & a0)
{
  fwd::begin("model::mesh::removeConstraints");
  fwd::in(a0);
}
}
namespace gmsh::model::mesh
{
void embed(const int a0, const std::vector<int> & a1, const int a2, const int a3)
{
  fwd::begin("model::mesh::embed");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
}
}
namespace gmsh::model::mesh
{
void removeEmbedded(const ::gmsh::vectorpair & a0, const int a1)
{
  fwd::begin("model::mesh::removeEmbedded");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::model::mesh
{
void getEmbedded(const int a0, const int a1, ::gmsh::vectorpair & a2)
{
  fwd::begin("model::mesh::getEmbedded");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
}
}
namespace gmsh::model::mesh
{
void reorderElements(const int a0, const int a1, const std::vector<std::size_t> & a2)
{
  fwd::begin("model::mesh::reorderElements");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::model::mesh
{
void renumberNodes(const std::vector<std::size_t> & a0, const std::vector<std::size_t> & a1)
{
  fwd::begin("model::mesh::renumberNodes");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::model::mesh
{
void renumberElements(const std::vector<std::size_t> & a0, const std::vector<std::size_t> & a1)
{
  fwd::begin("model::mesh::renumberElements");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::model::mesh
{
void setPeriodic(const int a0, const std::vector<int> & a1, const std::vector<int> & a2, const std::vector<double> & a3)
{
  fwd::begin("model::mesh::setPeriodic");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
}
}
namespace gmsh::model::mesh
{
void getPeriodic(const int a0, const std::vector<int> & a1, std::vector<int> & a2)
{
  fwd::begin("model::mesh::getPeriodic");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
}
}
namespace gmsh::model::mesh
{
void getPeriodicNodes(const int a0, const int a1, int & a2, std::vector<std::size_t> & a3, std::vector<std::size_t> & a4, std::vector<double> & a5, const bool a6)
{
  fwd::begin("model::mesh::getPeriodicNodes");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a6);
  fwd::out(a2);
  fwd::out(a3);
  fwd::out(a4);
  fwd::out(a5);
}
}
namespace gmsh::model::mesh
{
void getPeriodicKeys(const int a0, const std::string & a1, const int a2, int & a3, std::vector<int> & a4, std::vector<int> & a5, std::vector<std::size_t> & a6, std::vector<std::size_t> & a7, std::vector<double> & a8, std::vector<double> & a9, const bool a10)
{
  fwd::begin("model::mesh::getPeriodicKeys");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a10);
  fwd::out(a3);
  fwd::out(a4);
  fwd::out(a5);
  fwd::out(a6);
  fwd::out(a7);
  fwd::out(a8);
  fwd::out(a9);
}
}
namespace gmsh::model::mesh
{
void importStl()
{
  fwd::begin("model::mesh::importStl");
}
}
namespace gmsh::model::mesh
{
void getDuplicateNodes(std::vector<std::size_t> & a0, const ::gmsh::vectorpair & a1)
{
  fwd::begin("model::mesh::getDuplicateNodes");
  fwd::in(a1);
  fwd::out(a0);
}
}
namespace gmsh::model::mesh
{
void removeDuplicateNodes(const ::gmsh::vectorpair & a0)
{
  fwd::begin("model::mesh::removeDuplicateNodes");
  fwd::in(a0);
}
}
namespace gmsh::model::mesh
{
void splitQuadrangles(const double a0, const int a1)
{
  fwd::begin("model::mesh::splitQuadrangles");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::model::mesh
{
void setVisibility(const std::vector<std::size_t> & a0, const int a1)
{
  fwd::begin("model::mesh::setVisibility");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::model::mesh
{
void classifySurfaces(const double a0, const bool a1, const bool a2, const double a3, const bool a4)
{
  fwd::begin("model::mesh::classifySurfaces");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
}
}
namespace gmsh::model::mesh
{
void createGeometry(const ::gmsh::vectorpair & a0)
{
  fwd::begin("model::mesh::createGeometry");
  fwd::in(a0);
}
}
namespace gmsh::model::mesh
{
void createTopology(const bool a0, const bool a1)
{
  fwd::begin("model::mesh::createTopology");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::model::mesh
{
void addHomologyRequest(const std::string & a0, const std::vector<int> & a1, const std::vector<int> & a2, const std::vector<int> & a3)
{
  fwd::begin("model::mesh::addHomologyRequest");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
}
}
namespace gmsh::model::mesh
{
void clearHomologyRequests()
{
  fwd::begin("model::mesh::clearHomologyRequests");
}
}
namespace gmsh::model::mesh
{
void computeCrossField(std::vector<int> & a0)
{
  fwd::begin("model::mesh::computeCrossField");
  fwd::out(a0);
}
}
namespace gmsh::model::mesh
{
void triangulate(const std::vector<double> & a0, std::vector<std::size_t> & a1)
{
  fwd::begin("model::mesh::triangulate");
  fwd::in(a0);
  fwd::out(a1);
}
}
namespace gmsh::model::mesh
{
void tetrahedralize(const std::vector<double> & a0, std::vector<std::size_t> & a1)
{
  fwd::begin("model::mesh::tetrahedralize");
  fwd::in(a0);
  fwd::out(a1);
}
}
namespace gmsh::model::mesh::field
{
int add(const std::string & a0, const int a1)
{
  fwd::begin("model::mesh::field::add");
  fwd::in(a0);
  fwd::in(a1);
  return fwd::ret<int>();
}
}
namespace gmsh::model::mesh::field
{
void remove(const int a0)
{
  fwd::begin("model::mesh::field::remove");
  fwd::in(a0);
}
}
namespace gmsh::model::mesh::field
{
void list(std::vector<int> & a0)
{
  fwd::begin("model::mesh::field::list");
  fwd::out(a0);
}
}
namespace gmsh::model::mesh::field
{
void getType(const int a0, std::string & a1)
{
  fwd::begin("model::mesh::field::getType");
  fwd::in(a0);
  fwd::out(a1);
}
}
namespace gmsh::model::mesh::field
{
void setNumber(const int a0, const std::string & a1, const double a2)
{
  fwd::begin("model::mesh::field::setNumber");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::model::mesh::field
{
void getNumber(const int a0, const std::string & a1, double & a2)
{
  fwd::begin("model::mesh::field::getNumber");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
}
}
namespace gmsh::model::mesh::field
{
void setString(const int a0, const std::string & a1, const std::string & a2)
{
  fwd::begin("model::mesh::field::setString");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::model::mesh::field
{
void getString(const int a0, const std::string & a1, std::string & a2)
{
  fwd::begin("model::mesh::field::getString");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
}
}
namespace gmsh::model::mesh::field
{
void setNumbers(const int a0, const std::string & a1, const std::vector<double> & a2)
{
  fwd::begin("model::mesh::field::setNumbers");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::model::mesh::field
{
void getNumbers(const int a0, const std::string & a1, std::vector<double> & a2)
{
  fwd::begin("model::mesh::field::getNumbers");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
}
}
namespace gmsh::model::mesh::field
{
void setAsBackgroundMesh(const int a0)
{
  fwd::begin("model::mesh::field::setAsBackgroundMesh");
  fwd::in(a0);
}
}
namespace gmsh::model::mesh::field
{
void setAsBoundaryLayer(const int a0)
{
  fwd::begin("model::mesh::field::setAsBoundaryLayer");
  fwd::in(a0);
}
}
namespace gmsh::model::geo
{
int addPoint(const double a0, const double a1, const double a2, const double a3, const int a4)
{
  fwd::begin("model::geo::addPoint");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  return fwd::ret<int>();
}
}
namespace gmsh::model::geo
{
int addLine(const int a0, const int a1, const int a2)
{
  fwd::begin("model::geo::addLine");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  return fwd::ret<int>();
}
}
namespace gmsh::model::geo
{
int addCircleArc(const int a0, const int a1, const int a2, const int a3, const double a4, const double a5, const double a6)
{
  fwd::begin("model::geo::addCircleArc");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  return fwd::ret<int>();
}
}
namespace gmsh::model::geo
{
int addEllipseArc(const int a0, const int a1, const int a2, const int a3, const int a4, const double a5, const double a6, const double a7)
{
  fwd::begin("model::geo::addEllipseArc");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::in(a7);
  return fwd::ret<int>();
}
}
namespace gmsh::model::geo
{
int addBSpline(const std::vector<int> & a0, const int a1)
{
  fwd::begin("model::geo::addBSpline");
  fwd::in(a0);
  fwd::in(a1);
  return fwd::ret<int>();
}
}
namespace gmsh::model::geo
{
int addBezier(const std::vector<int> & a0, const int a1)
{
  fwd::begin("model::geo::addBezier");
  fwd::in(a0);
  fwd::in(a1);
  return fwd::ret<int>();
}
}
namespace gmsh::model::geo
{
int addPolyline(const std::vector<int> & a0, const int a1)
{
  fwd::begin("model::geo::addPolyline");
  fwd::in(a0);
  fwd::in(a1);
  return fwd::ret<int>();
}
}
namespace gmsh::model::geo
{
int addCompoundSpline(const std::vector<int> & a0, const int a1, const int a2)
{
  fwd::begin("model::geo::addCompoundSpline");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  return fwd::ret<int>();
}
}
namespace gmsh::model::geo
{
int addCompoundBSpline(const std::vector<int> & a0, const int a1, const int a2)
{
  fwd::begin("model::geo::addCompoundBSpline");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  return fwd::ret<int>();
}
}
namespace gmsh::model::geo
{
int addCurveLoop(const std::vector<int> & a0, const int a1, const bool a2)
{
  fwd::begin("model::geo::addCurveLoop");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  return fwd::ret<int>();
}
}
namespace gmsh::model::geo
{
void addCurveLoops(const std::vector<int> & a0, std::vector<int> & a1)
{
  fwd::begin("model::geo::addCurveLoops");
  fwd::in(a0);
  fwd::out(a1);
}
}
namespace gmsh::model::geo
{
int addPlaneSurface(const std::vector<int> & a0, const int a1)
{
  fwd::begin("model::geo::addPlaneSurface");
  fwd::in(a0);
  fwd::in(a1);
  return fwd::ret<int>();
}
}
namespace gmsh::model::geo
{
int addSurfaceFilling(const std::vector<int> & a0, const int a1, const int a2)
{
  fwd::begin("model::geo::addSurfaceFilling");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  return fwd::ret<int>();
}
}
namespace gmsh::model::geo
{
void revolve(const ::gmsh::vectorpair & a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6, const double a7, ::gmsh::vectorpair & a8, const std::vector<int> & a9, const std::vector<double> & a10, const bool a11)
{
  fwd::begin("model::geo::revolve");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::in(a7);
  fwd::in(a9);
  fwd::in(a10);
  fwd::in(a11);
  fwd::out(a8);
}
}
namespace gmsh::model::geo
{
void twist(const ::gmsh::vectorpair & a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6, const double a7, const double a8, const double a9, const double a10, ::gmsh::vectorpair & a11, const std::vector<int> & a12, const std::vector<double> & a13, const bool a14)
{
  fwd::begin("model::geo::twist");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::in(a7);
  fwd::in(a8);
  fwd::in(a9);
  fwd::in(a10);
  fwd::in(a12);
  fwd::in(a13);
  fwd::in(a14);
  fwd::out(a11);
}
}
namespace gmsh::model::geo
{
void extrudeBoundaryLayer(const ::gmsh::vectorpair & a0, ::gmsh::vectorpair & a1, const std::vector<int> & a2, const std::vector<double> & a3, const bool a4, const bool a5, const int a6)
{
  fwd::begin("model::geo::extrudeBoundaryLayer");
  fwd::in(a0);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::out(a1);
}
}
namespace gmsh::model::geo
{
void translate(const ::gmsh::vectorpair & a0, const double a1, const double a2, const double a3)
{
  fwd::begin("model::geo::translate");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
}
}
namespace gmsh::model::geo
{
void rotate(const ::gmsh::vectorpair & a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6, const double a7)
{
  fwd::begin("model::geo::rotate");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::in(a7);
}
}
namespace gmsh::model::geo
{
void dilate(const ::gmsh::vectorpair & a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6)
{
  fwd::begin("model::geo::dilate");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
}
}
namespace gmsh::model::geo
{
void mirror(const ::gmsh::vectorpair & a0, const double a1, const double a2, const double a3, const double a4)
{
  fwd::begin("model::geo::mirror");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
}
}
namespace gmsh::model::geo
{
void symmetrize(const ::gmsh::vectorpair & a0, const double a1, const double a2, const double a3, const double a4)
{
  fwd::begin("model::geo::symmetrize");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
}
}
namespace gmsh::model::geo
{
void copy(const ::gmsh::vectorpair & a0, ::gmsh::vectorpair & a1)
{
  fwd::begin("model::geo::copy");
  fwd::in(a0);
  fwd::out(a1);
}
}
namespace gmsh::model::geo
{
void remove(const ::gmsh::vectorpair & a0, const bool a1)
{
  fwd::begin("model::geo::remove");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::model::geo
{
void removeAllDuplicates()
{
  fwd::begin("model::geo::removeAllDuplicates");
}
}
namespace gmsh::model::geo
{
void splitCurve(const int a0, const std::vector<int> & a1, std::vector<int> & a2)
{
  fwd::begin("model::geo::splitCurve");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
}
}
namespace gmsh::model::geo
{
int getMaxTag(const int a0)
{
  fwd::begin("model::geo::getMaxTag");
  fwd::in(a0);
  return fwd::ret<int>();
}
}
namespace gmsh::model::geo
{
void setMaxTag(const int a0, const int a1)
{
  fwd::begin("model::geo::setMaxTag");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::model::geo
{
int addPhysicalGroup(const int a0, const std::vector<int> & a1, const int a2, const std::string & a3)
{
  fwd::begin("model::geo::addPhysicalGroup");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  return fwd::ret<int>();
}
}
namespace gmsh::model::geo
{
void removePhysicalGroups(const ::gmsh::vectorpair & a0)
{
  fwd::begin("model::geo::removePhysicalGroups");
  fwd::in(a0);
}
}
namespace gmsh::model::geo
{
void synchronize()
{
  fwd::begin("model::geo::synchronize");
}
}
namespace gmsh::model::geo::mesh
{
void setSize(const ::gmsh::vectorpair & a0, const double a1)
{
  fwd::begin("model::geo::mesh::setSize");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::model::geo::mesh
{
void setTransfiniteCurve(const int a0, const int a1, const std::string & a2, const double a3)
{
  fwd::begin("model::geo::mesh::setTransfiniteCurve");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
}
}
namespace gmsh::model::geo::mesh
{
void setTransfiniteSurface(const int a0, const std::string & a1, const std::vector<int> & a2)
{
  fwd::begin("model::geo::mesh::setTransfiniteSurface");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::model::geo::mesh
{
void setTransfiniteVolume(const int a0, const std::vector<int> & a1)
{
  fwd::begin("model::geo::mesh::setTransfiniteVolume");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::model::geo::mesh
{
void setRecombine(const int a0, const int a1, const double a2)
{
  fwd::begin("model::geo::mesh::setRecombine");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::model::geo::mesh
{
void setSmoothing(const int a0, const int a1, const int a2)
{
  fwd::begin("model::geo::mesh::setSmoothing");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::model::geo::mesh
{
void setReverse(const int a0, const int a1, const bool a2)
{
  fwd::begin("model::geo::mesh::setReverse");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::model::geo::mesh
{
void setAlgorithm(const int a0, const int a1, const int a2)
{
  fwd::begin("model::geo::mesh::setAlgorithm");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::model::geo::mesh
{
void setSizeFromBoundary(const int a0, const int a1, const int a2)
{
  fwd::begin("model::geo::mesh::setSizeFromBoundary");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::model::occ
{
int addPoint(const double a0, const double a1, const double a2, const double a3, const int a4)
{
  fwd::begin("model::occ::addPoint");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
int addLine(const int a0, const int a1, const int a2)
{
  fwd::begin("model::occ::addLine");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
int addCircleArc(const int a0, const int a1, const int a2, const int a3, const bool a4)
{
  fwd::begin("model::occ::addCircleArc");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
int addCircle(const double a0, const double a1, const double a2, const double a3, const int a4, const double a5, const double a6, const std::vector<double> & a7, const std::vector<double> & a8)
{
  fwd::begin("model::occ::addCircle");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::in(a7);
  fwd::in(a8);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
int addEllipseArc(const int a0, const int a1, const int a2, const int a3, const int a4)
{
  fwd::begin("model::occ::addEllipseArc");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
int addEllipse(const double a0, const double a1, const double a2, const double a3, const double a4, const int a5, const double a6, const double a7, const std::vector<double> & a8, const std::vector<double> & a9)
{
  fwd::begin("model::occ::addEllipse");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::in(a7);
  fwd::in(a8);
  fwd::in(a9);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
int addBSpline(const std::vector<int> & a0, const int a1, const int a2, const std::vector<double> & a3, const std::vector<double> & a4, const std::vector<int> & a5)
{
  fwd::begin("model::occ::addBSpline");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
int addBezier(const std::vector<int> & a0, const int a1)
{
  fwd::begin("model::occ::addBezier");
  fwd::in(a0);
  fwd::in(a1);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
int addWire(const std::vector<int> & a0, const int a1, const bool a2)
{
  fwd::begin("model::occ::addWire");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
int addCurveLoop(const std::vector<int> & a0, const int a1)
{
  fwd::begin("model::occ::addCurveLoop");
  fwd::in(a0);
  fwd::in(a1);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
int addRectangle(const double a0, const double a1, const double a2, const double a3, const double a4, const int a5, const double a6)
{
  fwd::begin("model::occ::addRectangle");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
int addDisk(const double a0, const double a1, const double a2, const double a3, const double a4, const int a5, const std::vector<double> & a6, const std::vector<double> & a7)
{
  fwd::begin("model::occ::addDisk");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::in(a7);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
int addPlaneSurface(const std::vector<int> & a0, const int a1)
{
  fwd::begin("model::occ::addPlaneSurface");
  fwd::in(a0);
  fwd::in(a1);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
int addSurfaceFilling(const int a0, const int a1, const std::vector<int> & a2, const int a3, const int a4, const int a5, const bool a6, const double a7, const double a8, const double a9, const double a10, const int a11, const int a12)
{
  fwd::begin("model::occ::addSurfaceFilling");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::in(a7);
  fwd::in(a8);
  fwd::in(a9);
  fwd::in(a10);
  fwd::in(a11);
  fwd::in(a12);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
int addBSplineFilling(const int a0, const int a1, const std::string & a2)
{
  fwd::begin("model::occ::addBSplineFilling");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
int addBezierFilling(const int a0, const int a1, const std::string & a2)
{
  fwd::begin("model::occ::addBezierFilling");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
int addBSplineSurface(const std::vector<int> & a0, const int a1, const int a2, const int a3, const int a4, const std::vector<double> & a5, const std::vector<double> & a6, const std::vector<double> & a7, const std::vector<int> & a8, const std::vector<int> & a9, const std::vector<int> & a10, const bool a11)
{
  fwd::begin("model::occ::addBSplineSurface");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::in(a7);
  fwd::in(a8);
  fwd::in(a9);
  fwd::in(a10);
  fwd::in(a11);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
int addBezierSurface(const std::vector<int> & a0, const int a1, const int a2, const std::vector<int> & a3, const bool a4)
{
  fwd::begin("model::occ::addBezierSurface");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
int addTrimmedSurface(const int a0, const std::vector<int> & a1, const bool a2, const int a3)
{
  fwd::begin("model::occ::addTrimmedSurface");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
int addSurfaceLoop(const std::vector<int> & a0, const int a1, const bool a2)
{
  fwd::begin("model::occ::addSurfaceLoop");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
int addVolume(const std::vector<int> & a0, const int a1)
{
  fwd::begin("model::occ::addVolume");
  fwd::in(a0);
  fwd::in(a1);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
int addSphere(const double a0, const double a1, const double a2, const double a3, const int a4, const double a5, const double a6, const double a7)
{
  fwd::begin("model::occ::addSphere");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::in(a7);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
int addBox(const double a0, const double a1, const double a2, const double a3, const double a4, const double a5, const int a6)
{
  fwd::begin("model::occ::addBox");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
int addCylinder(const double a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6, const int a7, const double a8)
{
  fwd::begin("model::occ::addCylinder");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::in(a7);
  fwd::in(a8);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
int addCone(const double a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6, const double a7, const int a8, const double a9)
{
  fwd::begin("model::occ::addCone");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::in(a7);
  fwd::in(a8);
  fwd::in(a9);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
int addWedge(const double a0, const double a1, const double a2, const double a3, const double a4, const double a5, const int a6, const double a7, const std::vector<double> & a8)
{
  fwd::begin("model::occ::addWedge");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::in(a7);
  fwd::in(a8);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
int addTorus(const double a0, const double a1, const double a2, const double a3, const double a4, const int a5, const double a6, const std::vector<double> & a7)
{
  fwd::begin("model::occ::addTorus");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::in(a7);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
void addThickSolid(const int a0, const std::vector<int> & a1, const double a2, ::gmsh::vectorpair & a3, const int a4)
{
  fwd::begin("model::occ::addThickSolid");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a4);
  fwd::out(a3);
}
}
namespace gmsh::model::occ
{
void extrude(const ::gmsh::vectorpair & a0, const double a1, const double a2, const double a3, ::gmsh::vectorpair & a4, const std::vector<int> & a5, const std::vector<double> & a6, const bool a7)
{
  fwd::begin("model::occ::extrude");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a5);
  fwd::in(a6);
  fwd::in(a7);
  fwd::out(a4);
}
}
namespace gmsh::model::occ
{
void revolve(const ::gmsh::vectorpair & a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6, const double a7, ::gmsh::vectorpair & a8, const std::vector<int> & a9, const std::vector<double> & a10, const bool a11)
{
  fwd::begin("model::occ::revolve");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::in(a7);
  fwd::in(a9);
  fwd::in(a10);
  fwd::in(a11);
  fwd::out(a8);
}
}
namespace gmsh::model::occ
{
void addPipe(const ::gmsh::vectorpair & a0, const int a1, ::gmsh::vectorpair & a2, const std::string & a3)
{
  fwd::begin("model::occ::addPipe");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a3);
  fwd::out(a2);
}
}
namespace gmsh::model::occ
{
void fillet(const std::vector<int> & a0, const std::vector<int> & a1, const std::vector<double> & a2, ::gmsh::vectorpair & a3, const bool a4)
{
  fwd::begin("model::occ::fillet");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a4);
  fwd::out(a3);
}
}
namespace gmsh::model::occ
{
void chamfer(const std::vector<int> & a0, const std::vector<int> & a1, const std::vector<int> & a2, const std::vector<double> & a3, ::gmsh::vectorpair & a4, const bool a5)
{
  fwd::begin("model::occ::chamfer");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a5);
  fwd::out(a4);
}
}
namespace gmsh::model::occ
{
void fuse(const ::gmsh::vectorpair & a0, const ::gmsh::vectorpair & a1, ::gmsh::vectorpair & a2, std::vector<::gmsh::vectorpair> & a3, const int a4, const bool a5, const bool a6)
{
  fwd::begin("model::occ::fuse");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::out(a2);
  fwd::out(a3);
}
}
namespace gmsh::model::occ
{
void intersect(const ::gmsh::vectorpair & a0, const ::gmsh::vectorpair & a1, ::gmsh::vectorpair & a2, std::vector<::gmsh::vectorpair> & a3, const int a4, const bool a5, const bool a6)
{
  fwd::begin("model::occ::intersect");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::out(a2);
  fwd::out(a3);
}
}
namespace gmsh::model::occ
{
void cut(const ::gmsh::vectorpair & a0, const ::gmsh::vectorpair & a1, ::gmsh::vectorpair & a2, std::vector<::gmsh::vectorpair> & a3, const int a4, const bool a5, const bool a6)
{
  fwd::begin("model::occ::cut");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::out(a2);
  fwd::out(a3);
}
}
namespace gmsh::model::occ
{
void fragment(const ::gmsh::vectorpair & a0, const ::gmsh::vectorpair & a1, ::gmsh::vectorpair & a2, std::vector<::gmsh::vectorpair> & a3, const int a4, const bool a5, const bool a6)
{
  fwd::begin("model::occ::fragment");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::out(a2);
  fwd::out(a3);
}
}
namespace gmsh::model::occ
{
void translate(const ::gmsh::vectorpair & a0, const double a1, const double a2, const double a3)
{
  fwd::begin("model::occ::translate");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
}
}
namespace gmsh::model::occ
{
void rotate(const ::gmsh::vectorpair & a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6, const double a7)
{
  fwd::begin("model::occ::rotate");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::in(a7);
}
}
namespace gmsh::model::occ
{
void dilate(const ::gmsh::vectorpair & a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6)
{
  fwd::begin("model::occ::dilate");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
}
}
namespace gmsh::model::occ
{
void mirror(const ::gmsh::vectorpair & a0, const double a1, const double a2, const double a3, const double a4)
{
  fwd::begin("model::occ::mirror");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
}
}
namespace gmsh::model::occ
{
void symmetrize(const ::gmsh::vectorpair & a0, const double a1, const double a2, const double a3, const double a4)
{
  fwd::begin("model::occ::symmetrize");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
}
}
namespace gmsh::model::occ
{
void affineTransform(const ::gmsh::vectorpair & a0, const std::vector<double> & a1)
{
  fwd::begin("model::occ::affineTransform");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::model::occ
{
void copy(const ::gmsh::vectorpair & a0, ::gmsh::vectorpair & a1)
{
  fwd::begin("model::occ::copy");
  fwd::in(a0);
  fwd::out(a1);
}
}
namespace gmsh::model::occ
{
void remove(const ::gmsh::vectorpair & a0, const bool a1)
{
  fwd::begin("model::occ::remove");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::model::occ
{
void removeAllDuplicates()
{
  fwd::begin("model::occ::removeAllDuplicates");
}
}
namespace gmsh::model::occ
{
void healShapes(::gmsh::vectorpair & a0, const ::gmsh::vectorpair & a1, const double a2, const bool a3, const bool a4, const bool a5, const bool a6, const bool a7)
{
  fwd::begin("model::occ::healShapes");
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::in(a7);
  fwd::out(a0);
}
}
namespace gmsh::model::occ
{
void convertToNURBS(const ::gmsh::vectorpair & a0)
{
  fwd::begin("model::occ::convertToNURBS");
  fwd::in(a0);
}
}
namespace gmsh::model::occ
{
void importShapes(const std::string & a0, ::gmsh::vectorpair & a1, const bool a2, const std::string & a3)
{
  fwd::begin("model::occ::importShapes");
  fwd::in(a0);
  fwd::in(a2);
  fwd::in(a3);
  fwd::out(a1);
}
}
namespace gmsh::model::occ
{
void importShapesNativePointer(const void * a0, ::gmsh::vectorpair & a1, const bool a2)
{
  fwd::begin("model::occ::importShapesNativePointer");
  fwd::in(a0);
  fwd::in(a2);
  fwd::out(a1);
}
}
namespace gmsh::model::occ
{
void getEntities(::gmsh::vectorpair & a0, const int a1)
{
  fwd::begin("model::occ::getEntities");
  fwd::in(a1);
  fwd::out(a0);
}
}
namespace gmsh::model::occ
{
void getEntitiesInBoundingBox(const double a0, const double a1, const double a2, const double a3, const double a4, const double a5, ::gmsh::vectorpair & a6, const int a7)
{
  fwd::begin("model::occ::getEntitiesInBoundingBox");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a7);
  fwd::out(a6);
}
}
namespace gmsh::model::occ
{
void getBoundingBox(const int a0, const int a1, double & a2, double & a3, double & a4, double & a5, double & a6, double & a7)
{
  fwd::begin("model::occ::getBoundingBox");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
  fwd::out(a3);
  fwd::out(a4);
  fwd::out(a5);
  fwd::out(a6);
  fwd::out(a7);
}
}
namespace gmsh::model::occ
{
void getCurveLoops(const int a0, std::vector<int> & a1, std::vector<std::vector<int> > & a2)
{
  fwd::begin("model::occ::getCurveLoops");
  fwd::in(a0);
  fwd::out(a1);
  fwd::out(a2);
}
}
namespace gmsh::model::occ
{
void getSurfaceLoops(const int a0, std::vector<int> & a1, std::vector<std::vector<int> > & a2)
{
  fwd::begin("model::occ::getSurfaceLoops");
  fwd::in(a0);
  fwd::out(a1);
  fwd::out(a2);
}
}
namespace gmsh::model::occ
{
void getMass(const int a0, const int a1, double & a2)
{
  fwd::begin("model::occ::getMass");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
}
}
namespace gmsh::model::occ
{
void getCenterOfMass(const int a0, const int a1, double & a2, double & a3, double & a4)
{
  fwd::begin("model::occ::getCenterOfMass");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
  fwd::out(a3);
  fwd::out(a4);
}
}
namespace gmsh::model::occ
{
void getMatrixOfInertia(const int a0, const int a1, std::vector<double> & a2)
{
  fwd::begin("model::occ::getMatrixOfInertia");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
}
}
namespace gmsh::model::occ
{
int getMaxTag(const int a0)
{
  fwd::begin("model::occ::getMaxTag");
  fwd::in(a0);
  return fwd::ret<int>();
}
}
namespace gmsh::model::occ
{
void setMaxTag(const int a0, const int a1)
{
  fwd::begin("model::occ::setMaxTag");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::model::occ
{
void synchronize()
{
  fwd::begin("model::occ::synchronize");
}
}
namespace gmsh::model::occ::mesh
{
void setSize(const ::gmsh::vectorpair & a0, const double a1)
{
  fwd::begin("model::occ::mesh::setSize");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::view
{
int add(const std::string & a0, const int a1)
{
  fwd::begin("view::add");
  fwd::in(a0);
  fwd::in(a1);
  return fwd::ret<int>();
}
}
namespace gmsh::view
{
void remove(const int a0)
{
  fwd::begin("view::remove");
  fwd::in(a0);
}
}
namespace gmsh::view
{
int getIndex(const int a0)
{
  fwd::begin("view::getIndex");
  fwd::in(a0);
  return fwd::ret<int>();
}
}
namespace gmsh::view
{
void getTags(std::vector<int> & a0)
{
  fwd::begin("view::getTags");
  fwd::out(a0);
}
}
namespace gmsh::view
{
void addModelData(const int a0, const int a1, const std::string & a2, const std::string & a3, const std::vector<std::size_t> & a4, const std::vector<std::vector<double> > & a5, const double a6, const int a7, const int a8)
{
  fwd::begin("view::addModelData");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::in(a7);
  fwd::in(a8);
}
}
namespace gmsh::view
{
void addHomogeneousModelData(const int a0, const int a1, const std::string & a2, const std::string & a3, const std::vector<std::size_t> & a4, const std::vector<double> & a5, const double a6, const int a7, const int a8)
{
  fwd::begin("view::addHomogeneousModelData");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::in(a7);
  fwd::in(a8);
}
}
namespace gmsh::view
{
void getModelData(const int a0, const int a1, std::string & a2, std::vector<std::size_t> & a3, std::vector<std::vector<double> > & a4, double & a5, int & a6)
{
  fwd::begin("view::getModelData");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
  fwd::out(a3);
  fwd::out(a4);
  fwd::out(a5);
  fwd::out(a6);
}
}
namespace gmsh::view
{
void getHomogeneousModelData(const int a0, const int a1, std::string & a2, std::vector<std::size_t> & a3, std::vector<double> & a4, double & a5, int & a6)
{
  fwd::begin("view::getHomogeneousModelData");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
  fwd::out(a3);
  fwd::out(a4);
  fwd::out(a5);
  fwd::out(a6);
}
}
namespace gmsh::view
{
void addListData(const int a0, const std::string & a1, const int a2, const std::vector<double> & a3)
{
  fwd::begin("view::addListData");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
}
}
namespace gmsh::view
{
void getListData(const int a0, std::vector<std::string> & a1, std::vector<int> & a2, std::vector<std::vector<double> > & a3, const bool a4)
{
  fwd::begin("view::getListData");
  fwd::in(a0);
  fwd::in(a4);
  fwd::out(a1);
  fwd::out(a2);
  fwd::out(a3);
}
}
namespace gmsh::view
{
void addListDataString(const int a0, const std::vector<double> & a1, const std::vector<std::string> & a2, const std::vector<std::string> & a3)
{
  fwd::begin("view::addListDataString");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
}
}
namespace gmsh::view
{
void getListDataStrings(const int a0, const int a1, std::vector<double> & a2, std::vector<std::string> & a3, std::vector<std::string> & a4)
{
  fwd::begin("view::getListDataStrings");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
  fwd::out(a3);
  fwd::out(a4);
}
}
namespace gmsh::view
{
void setInterpolationMatrices(const int a0, const std::string & a1, const int a2, const std::vector<double> & a3, const std::vector<double> & a4, const int a5, const std::vector<double> & a6, const std::vector<double> & a7)
{
  fwd::begin("view::setInterpolationMatrices");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
  fwd::in(a6);
  fwd::in(a7);
}
}
namespace gmsh::view
{
int addAlias(const int a0, const bool a1, const int a2)
{
  fwd::begin("view::addAlias");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  return fwd::ret<int>();
}
}
namespace gmsh::view
{
void combine(const std::string & a0, const std::string & a1, const bool a2, const bool a3)
{
  fwd::begin("view::combine");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
}
}
namespace gmsh::view
{
void probe(const int a0, const double a1, const double a2, const double a3, std::vector<double> & a4, double & a5, const int a6, const int a7, const bool a8, const double a9, const std::vector<double> & a10, const std::vector<double> & a11, const std::vector<double> & a12, const int a13)
{
  fwd::begin("view::probe");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a6);
  fwd::in(a7);
  fwd::in(a8);
  fwd::in(a9);
  fwd::in(a10);
  fwd::in(a11);
  fwd::in(a12);
  fwd::in(a13);
  fwd::out(a4);
  fwd::out(a5);
}
}
namespace gmsh::view
{
void write(const int a0, const std::string & a1, const bool a2)
{
  fwd::begin("view::write");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::view
{
void setVisibilityPerWindow(const int a0, const int a1, const int a2)
{
  fwd::begin("view::setVisibilityPerWindow");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::view::option
{
void setNumber(const int a0, const std::string & a1, const double a2)
{
  fwd::begin("view::option::setNumber");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::view::option
{
void getNumber(const int a0, const std::string & a1, double & a2)
{
  fwd::begin("view::option::getNumber");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
}
}
namespace gmsh::view::option
{
void setString(const int a0, const std::string & a1, const std::string & a2)
{
  fwd::begin("view::option::setString");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::view::option
{
void getString(const int a0, const std::string & a1, std::string & a2)
{
  fwd::begin("view::option::getString");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
}
}
namespace gmsh::view::option
{
void setColor(const int a0, const std::string & a1, const int a2, const int a3, const int a4, const int a5)
{
  fwd::begin("view::option::setColor");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
  fwd::in(a3);
  fwd::in(a4);
  fwd::in(a5);
}
}
namespace gmsh::view::option
{
void getColor(const int a0, const std::string & a1, int & a2, int & a3, int & a4, int & a5)
{
  fwd::begin("view::option::getColor");
  fwd::in(a0);
  fwd::in(a1);
  fwd::out(a2);
  fwd::out(a3);
  fwd::out(a4);
  fwd::out(a5);
}
}
namespace gmsh::view::option
{
void copy(const int a0, const int a1)
{
  fwd::begin("view::option::copy");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::plugin
{
void setNumber(const std::string & a0, const std::string & a1, const double a2)
{
  fwd::begin("plugin::setNumber");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::plugin
{
void setString(const std::string & a0, const std::string & a1, const std::string & a2)
{
  fwd::begin("plugin::setString");
  fwd::in(a0);
  fwd::in(a1);
  fwd::in(a2);
}
}
namespace gmsh::plugin
{
int run(const std::string & a0)
{
  fwd::begin("plugin::run");
  fwd::in(a0);
  return fwd::ret<int>();
}
}
namespace gmsh::graphics
{
void draw()
{
  fwd::begin("graphics::draw");
}
}
namespace gmsh::fltk
{
void initialize()
{
  fwd::begin("fltk::initialize");
}
}
namespace gmsh::fltk
{
void finalize()
{
  fwd::begin("fltk::finalize");
}
}
namespace gmsh::fltk
{
void wait(const double a0)
{
  fwd::begin("fltk::wait");
  fwd::in(a0);
}
}
namespace gmsh::fltk
{
void update()
{
  fwd::begin("fltk::update");
}
}
namespace gmsh::fltk
{
void awake(const std::string & a0)
{
  fwd::begin("fltk::awake");
  fwd::in(a0);
}
}
namespace gmsh::fltk
{
void lock()
{
  fwd::begin("fltk::lock");
}
}
namespace gmsh::fltk
{
void unlock()
{
  fwd::begin("fltk::unlock");
}
}
namespace gmsh::fltk
{
void run()
{
  fwd::begin("fltk::run");
}
}
namespace gmsh::fltk
{
int isAvailable()
{
  fwd::begin("fltk::isAvailable");
  return fwd::ret<int>();
}
}
namespace gmsh::fltk
{
int selectEntities(::gmsh::vectorpair & a0, const int a1)
{
  fwd::begin("fltk::selectEntities");
  fwd::in(a1);
  fwd::out(a0);
  return fwd::ret<int>();
}
}
namespace gmsh::fltk
{
int selectElements(std::vector<std::size_t> & a0)
{
  fwd::begin("fltk::selectElements");
  fwd::out(a0);
  return fwd::ret<int>();
}
}
namespace gmsh::fltk
{
int selectViews(std::vector<int> & a0)
{
  fwd::begin("fltk::selectViews");
  fwd::out(a0);
  return fwd::ret<int>();
}
}
namespace gmsh::fltk
{
void splitCurrentWindow(const std::string & a0, const double a1)
{
  fwd::begin("fltk::splitCurrentWindow");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::fltk
{
void setCurrentWindow(const int a0)
{
  fwd::begin("fltk::setCurrentWindow");
  fwd::in(a0);
}
}
namespace gmsh::fltk
{
void setStatusMessage(const std::string & a0, const bool a1)
{
  fwd::begin("fltk::setStatusMessage");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::fltk
{
void showContextWindow(const int a0, const int a1)
{
  fwd::begin("fltk::showContextWindow");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::fltk
{
void openTreeItem(const std::string & a0)
{
  fwd::begin("fltk::openTreeItem");
  fwd::in(a0);
}
}
namespace gmsh::fltk
{
void closeTreeItem(const std::string & a0)
{
  fwd::begin("fltk::closeTreeItem");
  fwd::in(a0);
}
}
namespace gmsh::parser
{
void getNames(std::vector<std::string> & a0, const std::string & a1)
{
  fwd::begin("parser::getNames");
  fwd::in(a1);
  fwd::out(a0);
}
}
namespace gmsh::parser
{
void setNumber(const std::string & a0, const std::vector<double> & a1)
{
  fwd::begin("parser::setNumber");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::parser
{
void setString(const std::string & a0, const std::vector<std::string> & a1)
{
  fwd::begin("parser::setString");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::parser
{
void getNumber(const std::string & a0, std::vector<double> & a1)
{
  fwd::begin("parser::getNumber");
  fwd::in(a0);
  fwd::out(a1);
}
}
namespace gmsh::parser
{
void getString(const std::string & a0, std::vector<std::string> & a1)
{
  fwd::begin("parser::getString");
  fwd::in(a0);
  fwd::out(a1);
}
}
namespace gmsh::parser
{
void clear(const std::string & a0)
{
  fwd::begin("parser::clear");
  fwd::in(a0);
}
}
namespace gmsh::parser
{
void parse(const std::string & a0)
{
  fwd::begin("parser::parse");
  fwd::in(a0);
}
}
namespace gmsh::onelab
{
void set(const std::string & a0, const std::string & a1)
{
  fwd::begin("onelab::set");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::onelab
{
void get(std::string & a0, const std::string & a1, const std::string & a2)
{
  fwd::begin("onelab::get");
  fwd::in(a1);
  fwd::in(a2);
  fwd::out(a0);
}
}
namespace gmsh::onelab
{
void getNames(std::vector<std::string> & a0, const std::string & a1)
{
  fwd::begin("onelab::getNames");
  fwd::in(a1);
  fwd::out(a0);
}
}
namespace gmsh::onelab
{
void setNumber(const std::string & a0, const std::vector<double> & a1)
{
  fwd::begin("onelab::setNumber");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::onelab
{
void setString(const std::string & a0, const std::vector<std::string> & a1)
{
  fwd::begin("onelab::setString");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::onelab
{
void getNumber(const std::string & a0, std::vector<double> & a1)
{
  fwd::begin("onelab::getNumber");
  fwd::in(a0);
  fwd::out(a1);
}
}
namespace gmsh::onelab
{
void getString(const std::string & a0, std::vector<std::string> & a1)
{
  fwd::begin("onelab::getString");
  fwd::in(a0);
  fwd::out(a1);
}
}
namespace gmsh::onelab
{
int getChanged(const std::string & a0)
{
  fwd::begin("onelab::getChanged");
  fwd::in(a0);
  return fwd::ret<int>();
}
}
namespace gmsh::onelab
{
void setChanged(const std::string & a0, const int a1)
{
  fwd::begin("onelab::setChanged");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::onelab
{
void clear(const std::string & a0)
{
  fwd::begin("onelab::clear");
  fwd::in(a0);
}
}
namespace gmsh::onelab
{
void run(const std::string & a0, const std::string & a1)
{
  fwd::begin("onelab::run");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::logger
{
void write(const std::string & a0, const std::string & a1)
{
  fwd::begin("logger::write");
  fwd::in(a0);
  fwd::in(a1);
}
}
namespace gmsh::logger
{
void start()
{
  fwd::begin("logger::start");
}
}
namespace gmsh::logger
{
void get(std::vector<std::string> & a0)
{
  fwd::begin("logger::get");
  fwd::out(a0);
}
}
namespace gmsh::logger
{
void stop()
{
  fwd::begin("logger::stop");
}
}
namespace gmsh::logger
{
double getWallTime()
{
  fwd::begin("logger::getWallTime");
  return fwd::ret<double>();
}
}
namespace gmsh::logger
{
double getCpuTime()
{
  fwd::begin("logger::getCpuTime");
  return fwd::ret<double>();
}
}
namespace gmsh::logger
{
void getLastError(std::string & a0)
{
  fwd::begin("logger::getLastError");
  fwd::out(a0);
}
}

// One call of every wrapper, with a number of trailing arguments left out.
static void t0(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<char **>(r);
  auto a2 = fwd::gen<bool>(r);
  auto a3 = fwd::gen<bool>(r);
  fwd::expect("initialize");
  if (omit >= 4) fwd::want(static_cast<int>(0)); else fwd::want(a0);
  if (omit >= 3) fwd::want(static_cast<char **>(0)); else fwd::want(a1);
  if (omit >= 2) fwd::want(static_cast<bool>(true)); else fwd::want(a2);
  if (omit >= 1) fwd::want(static_cast<bool>(false)); else fwd::want(a3);
  switch (omit) {
  default: um2::gmsh::initialize(a0, a1, a2, a3); break;
  case 1: um2::gmsh::initialize(a0, a1, a2); break;
  case 2: um2::gmsh::initialize(a0, a1); break;
  case 3: um2::gmsh::initialize(a0); break;
  case 4: um2::gmsh::initialize(); break;
  }
}
static void t1(vh::Rng & r, int omit)
{
  fwd::expect("isInitialized");
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::isInitialized(); break;
  }
  fwd::gotRet(rv);
}
static void t2(vh::Rng & r, int omit)
{
  fwd::expect("finalize");
  switch (omit) {
  default: um2::gmsh::finalize(); break;
  }
}
static void t3(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  fwd::expect("open");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::open(a0); break;
  }
}
static void t4(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  fwd::expect("merge");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::merge(a0); break;
  }
}
static void t5(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  fwd::expect("write");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::write(a0); break;
  }
}
static void t6(vh::Rng & r, int omit)
{
  fwd::expect("clear");
  switch (omit) {
  default: um2::gmsh::clear(); break;
  }
}
static void t7(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<double>(r);
  fwd::expect("option::setNumber");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::option::setNumber(a0, a1); break;
  }
}
static void t8(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<double>(r);
  fwd::expect("option::getNumber");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::option::getNumber(a0, a1); break;
  }
  fwd::got(a1);
}
static void t9(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<std::string>(r);
  fwd::expect("option::setString");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::option::setString(a0, a1); break;
  }
}
static void t10(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<std::string>(r);
  fwd::expect("option::getString");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::option::getString(a0, a1); break;
  }
  fwd::got(a1);
}
static void t11(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  auto a3 = fwd::gen<int>(r);
  auto a4 = fwd::gen<int>(r);
  fwd::expect("option::setColor");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  if (omit >= 1) fwd::want(static_cast<int>(255)); else fwd::want(a4);
  switch (omit) {
  default: um2::gmsh::option::setColor(a0, a1, a2, a3, a4); break;
  case 1: um2::gmsh::option::setColor(a0, a1, a2, a3); break;
  }
}
static void t12(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  auto a3 = fwd::gen<int>(r);
  auto a4 = fwd::gen<int>(r);
  fwd::expect("option::getColor");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::option::getColor(a0, a1, a2, a3, a4); break;
  }
  fwd::got(a1);
  fwd::got(a2);
  fwd::got(a3);
  fwd::got(a4);
}
static void t13(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  fwd::expect("model::add");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::add(a0); break;
  }
}
static void t14(vh::Rng & r, int omit)
{
  fwd::expect("model::remove");
  switch (omit) {
  default: um2::gmsh::model::remove(); break;
  }
}
static void t15(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<std::string>>(r);
  fwd::expect("model::list");
  switch (omit) {
  default: um2::gmsh::model::list(a0); break;
  }
  fwd::got(a0);
}
static void t16(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  fwd::expect("model::getCurrent");
  switch (omit) {
  default: um2::gmsh::model::getCurrent(a0); break;
  }
  fwd::got(a0);
}
static void t17(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  fwd::expect("model::setCurrent");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::setCurrent(a0); break;
  }
}
static void t18(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  fwd::expect("model::getFileName");
  switch (omit) {
  default: um2::gmsh::model::getFileName(a0); break;
  }
  fwd::got(a0);
}
static void t19(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  fwd::expect("model::setFileName");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::setFileName(a0); break;
  }
}
static void t20(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<int>(r);
  fwd::expect("model::getEntities");
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::getEntities(a0, a1); break;
  case 1: um2::gmsh::model::getEntities(a0); break;
  }
  fwd::got(a0);
}
static void t21(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::string>(r);
  fwd::expect("model::setEntityName");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::setEntityName(a0, a1, a2); break;
  }
}
static void t22(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::string>(r);
  fwd::expect("model::getEntityName");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::getEntityName(a0, a1, a2); break;
  }
  fwd::got(a2);
}
static void t23(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<int>(r);
  fwd::expect("model::getPhysicalGroups");
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::getPhysicalGroups(a0, a1); break;
  case 1: um2::gmsh::model::getPhysicalGroups(a0); break;
  }
  fwd::got(a0);
}
static void t24(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::vector<int>>(r);
  fwd::expect("model::getEntitiesForPhysicalGroup");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::getEntitiesForPhysicalGroup(a0, a1, a2); break;
  }
  fwd::got(a2);
}
static void t25(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::vector<int>>(r);
  fwd::expect("model::getPhysicalGroupsForEntity");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::getPhysicalGroupsForEntity(a0, a1, a2); break;
  }
  fwd::got(a2);
}
static void t26(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<int>>(r);
  auto a2 = fwd::gen<int>(r);
  auto a3 = fwd::gen<std::string>(r);
  fwd::expect("model::addPhysicalGroup");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 2) fwd::want(static_cast<int>(-1)); else fwd::want(a2);
  if (omit >= 1) fwd::want(static_cast<std::string>("")); else fwd::want(a3);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::addPhysicalGroup(a0, a1, a2, a3); break;
  case 1: rv = um2::gmsh::model::addPhysicalGroup(a0, a1, a2); break;
  case 2: rv = um2::gmsh::model::addPhysicalGroup(a0, a1); break;
  }
  fwd::gotRet(rv);
}
static void t27(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  fwd::expect("model::removePhysicalGroups");
  if (omit >= 1) fwd::want(static_cast<::gmsh::vectorpair>(::gmsh::vectorpair())); else fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::removePhysicalGroups(a0); break;
  case 1: um2::gmsh::model::removePhysicalGroups(); break;
  }
}
static void t28(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::string>(r);
  fwd::expect("model::setPhysicalName");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::setPhysicalName(a0, a1, a2); break;
  }
}
static void t29(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  fwd::expect("model::removePhysicalName");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::removePhysicalName(a0); break;
  }
}
static void t30(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::string>(r);
  fwd::expect("model::getPhysicalName");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::getPhysicalName(a0, a1, a2); break;
  }
  fwd::got(a2);
}
static void t31(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  fwd::expect("model::setTag");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::setTag(a0, a1, a2); break;
  }
}
static void t32(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<::gmsh::vectorpair>(r);
  auto a2 = fwd::gen<bool>(r);
  auto a3 = fwd::gen<bool>(r);
  auto a4 = fwd::gen<bool>(r);
  fwd::expect("model::getBoundary");
  fwd::want(a0);
  if (omit >= 3) fwd::want(static_cast<bool>(true)); else fwd::want(a2);
  if (omit >= 2) fwd::want(static_cast<bool>(true)); else fwd::want(a3);
  if (omit >= 1) fwd::want(static_cast<bool>(false)); else fwd::want(a4);
  switch (omit) {
  default: um2::gmsh::model::getBoundary(a0, a1, a2, a3, a4); break;
  case 1: um2::gmsh::model::getBoundary(a0, a1, a2, a3); break;
  case 2: um2::gmsh::model::getBoundary(a0, a1, a2); break;
  case 3: um2::gmsh::model::getBoundary(a0, a1); break;
  }
  fwd::got(a1);
}
static void t33(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::vector<int>>(r);
  auto a3 = fwd::gen<std::vector<int>>(r);
  fwd::expect("model::getAdjacencies");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::getAdjacencies(a0, a1, a2, a3); break;
  }
  fwd::got(a2);
  fwd::got(a3);
}
static void t34(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<double>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<double>(r);
  auto a5 = fwd::gen<double>(r);
  auto a6 = fwd::gen<::gmsh::vectorpair>(r);
  auto a7 = fwd::gen<int>(r);
  fwd::expect("model::getEntitiesInBoundingBox");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  fwd::want(a5);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a7);
  switch (omit) {
  default: um2::gmsh::model::getEntitiesInBoundingBox(a0, a1, a2, a3, a4, a5, a6, a7); break;
  case 1: um2::gmsh::model::getEntitiesInBoundingBox(a0, a1, a2, a3, a4, a5, a6); break;
  }
  fwd::got(a6);
}
static void t35(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<double>(r);
  auto a5 = fwd::gen<double>(r);
  auto a6 = fwd::gen<double>(r);
  auto a7 = fwd::gen<double>(r);
  fwd::expect("model::getBoundingBox");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::getBoundingBox(a0, a1, a2, a3, a4, a5, a6, a7); break;
  }
  fwd::got(a2);
  fwd::got(a3);
  fwd::got(a4);
  fwd::got(a5);
  fwd::got(a6);
  fwd::got(a7);
}
static void t36(vh::Rng & r, int omit)
{
  fwd::expect("model::getDimension");
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::getDimension(); break;
  }
  fwd::gotRet(rv);
}
static void t37(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::vector<int>>(r);
  fwd::expect("model::addDiscreteEntity");
  fwd::want(a0);
  if (omit >= 2) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<std::vector<int>>(std::vector<int>())); else fwd::want(a2);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::addDiscreteEntity(a0, a1, a2); break;
  case 1: rv = um2::gmsh::model::addDiscreteEntity(a0, a1); break;
  case 2: rv = um2::gmsh::model::addDiscreteEntity(a0); break;
  }
  fwd::gotRet(rv);
}
static void t38(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<bool>(r);
  fwd::expect("model::removeEntities");
  fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<bool>(false)); else fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::removeEntities(a0, a1); break;
  case 1: um2::gmsh::model::removeEntities(a0); break;
  }
}
static void t39(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  fwd::expect("model::removeEntityName");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::removeEntityName(a0); break;
  }
}
static void t40(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::string>(r);
  fwd::expect("model::getType");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::getType(a0, a1, a2); break;
  }
  fwd::got(a2);
}
static void t41(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  auto a3 = fwd::gen<int>(r);
  fwd::expect("model::getParent");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::getParent(a0, a1, a2, a3); break;
  }
  fwd::got(a2);
  fwd::got(a3);
}
static void t42(vh::Rng & r, int omit)
{
  fwd::expect("model::getNumberOfPartitions");
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::getNumberOfPartitions(); break;
  }
  fwd::gotRet(rv);
}
static void t43(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::vector<int>>(r);
  fwd::expect("model::getPartitions");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::getPartitions(a0, a1, a2); break;
  }
  fwd::got(a2);
}
static void t44(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::vector<double>>(r);
  auto a3 = fwd::gen<std::vector<double>>(r);
  fwd::expect("model::getValue");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::getValue(a0, a1, a2, a3); break;
  }
  fwd::got(a3);
}
static void t45(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::vector<double>>(r);
  auto a3 = fwd::gen<std::vector<double>>(r);
  fwd::expect("model::getDerivative");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::getDerivative(a0, a1, a2, a3); break;
  }
  fwd::got(a3);
}
static void t46(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::vector<double>>(r);
  auto a3 = fwd::gen<std::vector<double>>(r);
  fwd::expect("model::getSecondDerivative");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::getSecondDerivative(a0, a1, a2, a3); break;
  }
  fwd::got(a3);
}
static void t47(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::vector<double>>(r);
  auto a3 = fwd::gen<std::vector<double>>(r);
  fwd::expect("model::getCurvature");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::getCurvature(a0, a1, a2, a3); break;
  }
  fwd::got(a3);
}
static void t48(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<double>>(r);
  auto a2 = fwd::gen<std::vector<double>>(r);
  auto a3 = fwd::gen<std::vector<double>>(r);
  auto a4 = fwd::gen<std::vector<double>>(r);
  auto a5 = fwd::gen<std::vector<double>>(r);
  fwd::expect("model::getPrincipalCurvatures");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::getPrincipalCurvatures(a0, a1, a2, a3, a4, a5); break;
  }
  fwd::got(a2);
  fwd::got(a3);
  fwd::got(a4);
  fwd::got(a5);
}
static void t49(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<double>>(r);
  auto a2 = fwd::gen<std::vector<double>>(r);
  fwd::expect("model::getNormal");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::getNormal(a0, a1, a2); break;
  }
  fwd::got(a2);
}
static void t50(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::vector<double>>(r);
  auto a3 = fwd::gen<std::vector<double>>(r);
  fwd::expect("model::getParametrization");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::getParametrization(a0, a1, a2, a3); break;
  }
  fwd::got(a3);
}
static void t51(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::vector<double>>(r);
  auto a3 = fwd::gen<std::vector<double>>(r);
  fwd::expect("model::getParametrizationBounds");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::getParametrizationBounds(a0, a1, a2, a3); break;
  }
  fwd::got(a2);
  fwd::got(a3);
}
static void t52(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::vector<double>>(r);
  auto a3 = fwd::gen<bool>(r);
  fwd::expect("model::isInside");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  if (omit >= 1) fwd::want(static_cast<bool>(false)); else fwd::want(a3);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::isInside(a0, a1, a2, a3); break;
  case 1: rv = um2::gmsh::model::isInside(a0, a1, a2); break;
  }
  fwd::gotRet(rv);
}
static void t53(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::vector<double>>(r);
  auto a3 = fwd::gen<std::vector<double>>(r);
  auto a4 = fwd::gen<std::vector<double>>(r);
  fwd::expect("model::getClosestPoint");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::getClosestPoint(a0, a1, a2, a3, a4); break;
  }
  fwd::got(a3);
  fwd::got(a4);
}
static void t54(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::vector<double>>(r);
  auto a3 = fwd::gen<int>(r);
  auto a4 = fwd::gen<std::vector<double>>(r);
  auto a5 = fwd::gen<int>(r);
  fwd::expect("model::reparametrizeOnSurface");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  if (omit >= 1) fwd::want(static_cast<int>(0)); else fwd::want(a5);
  switch (omit) {
  default: um2::gmsh::model::reparametrizeOnSurface(a0, a1, a2, a3, a4, a5); break;
  case 1: um2::gmsh::model::reparametrizeOnSurface(a0, a1, a2, a3, a4); break;
  }
  fwd::got(a4);
}
static void t55(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<bool>(r);
  fwd::expect("model::setVisibility");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<bool>(false)); else fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::setVisibility(a0, a1, a2); break;
  case 1: um2::gmsh::model::setVisibility(a0, a1); break;
  }
}
static void t56(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  fwd::expect("model::getVisibility");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::getVisibility(a0, a1, a2); break;
  }
  fwd::got(a2);
}
static void t57(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  fwd::expect("model::setVisibilityPerWindow");
  fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<int>(0)); else fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::setVisibilityPerWindow(a0, a1); break;
  case 1: um2::gmsh::model::setVisibilityPerWindow(a0); break;
  }
}
static void t58(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  auto a3 = fwd::gen<int>(r);
  auto a4 = fwd::gen<int>(r);
  auto a5 = fwd::gen<bool>(r);
  fwd::expect("model::setColor");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  if (omit >= 2) fwd::want(static_cast<int>(255)); else fwd::want(a4);
  if (omit >= 1) fwd::want(static_cast<bool>(false)); else fwd::want(a5);
  switch (omit) {
  default: um2::gmsh::model::setColor(a0, a1, a2, a3, a4, a5); break;
  case 1: um2::gmsh::model::setColor(a0, a1, a2, a3, a4); break;
  case 2: um2::gmsh::model::setColor(a0, a1, a2, a3); break;
  }
}
static void t59(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  auto a3 = fwd::gen<int>(r);
  auto a4 = fwd::gen<int>(r);
  auto a5 = fwd::gen<int>(r);
  fwd::expect("model::getColor");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::getColor(a0, a1, a2, a3, a4, a5); break;
  }
  fwd::got(a2);
  fwd::got(a3);
  fwd::got(a4);
  fwd::got(a5);
}
static void t60(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  fwd::expect("model::setCoordinates");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  switch (omit) {
  default: um2::gmsh::model::setCoordinates(a0, a1, a2, a3); break;
  }
}
static void t61(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  fwd::expect("model::mesh::generate");
  if (omit >= 1) fwd::want(static_cast<int>(3)); else fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::mesh::generate(a0); break;
  case 1: um2::gmsh::model::mesh::generate(); break;
  }
}
static void t62(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<std::size_t>>(r);
  auto a2 = fwd::gen<std::vector<int>>(r);
  fwd::expect("model::mesh::partition");
  fwd::want(a0);
  if (omit >= 2) fwd::want(static_cast<std::vector<std::size_t>>(std::vector<std::size_t>())); else fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<std::vector<int>>(std::vector<int>())); else fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::mesh::partition(a0, a1, a2); break;
  case 1: um2::gmsh::model::mesh::partition(a0, a1); break;
  case 2: um2::gmsh::model::mesh::partition(a0); break;
  }
}
static void t63(vh::Rng & r, int omit)
{
  fwd::expect("model::mesh::unpartition");
  switch (omit) {
  default: um2::gmsh::model::mesh::unpartition(); break;
  }
}
static void t64(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<bool>(r);
  auto a2 = fwd::gen<int>(r);
  auto a3 = fwd::gen<::gmsh::vectorpair>(r);
  fwd::expect("model::mesh::optimize");
  if (omit >= 4) fwd::want(static_cast<std::string>("")); else fwd::want(a0);
  if (omit >= 3) fwd::want(static_cast<bool>(false)); else fwd::want(a1);
  if (omit >= 2) fwd::want(static_cast<int>(1)); else fwd::want(a2);
  if (omit >= 1) fwd::want(static_cast<::gmsh::vectorpair>(::gmsh::vectorpair())); else fwd::want(a3);
  switch (omit) {
  default: um2::gmsh::model::mesh::optimize(a0, a1, a2, a3); break;
  case 1: um2::gmsh::model::mesh::optimize(a0, a1, a2); break;
  case 2: um2::gmsh::model::mesh::optimize(a0, a1); break;
  case 3: um2::gmsh::model::mesh::optimize(a0); break;
  case 4: um2::gmsh::model::mesh::optimize(); break;
  }
}
static void t65(vh::Rng & r, int omit)
{
  fwd::expect("model::mesh::recombine");
  switch (omit) {
  default: um2::gmsh::model::mesh::recombine(); break;
  }
}
static void t66(vh::Rng & r, int omit)
{
  fwd::expect("model::mesh::refine");
  switch (omit) {
  default: um2::gmsh::model::mesh::refine(); break;
  }
}
static void t67(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  fwd::expect("model::mesh::setOrder");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::mesh::setOrder(a0); break;
  }
}
static void t68(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  fwd::expect("model::mesh::getLastEntityError");
  switch (omit) {
  default: um2::gmsh::model::mesh::getLastEntityError(a0); break;
  }
  fwd::got(a0);
}
static void t69(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<std::size_t>>(r);
  fwd::expect("model::mesh::getLastNodeError");
  switch (omit) {
  default: um2::gmsh::model::mesh::getLastNodeError(a0); break;
  }
  fwd::got(a0);
}
static void t70(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  fwd::expect("model::mesh::clear");
  if (omit >= 1) fwd::want(static_cast<::gmsh::vectorpair>(::gmsh::vectorpair())); else fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::mesh::clear(a0); break;
  case 1: um2::gmsh::model::mesh::clear(); break;
  }
}
static void t71(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  fwd::expect("model::mesh::reverse");
  if (omit >= 1) fwd::want(static_cast<::gmsh::vectorpair>(::gmsh::vectorpair())); else fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::mesh::reverse(a0); break;
  case 1: um2::gmsh::model::mesh::reverse(); break;
  }
}
static void t72(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<double>>(r);
  auto a1 = fwd::gen<::gmsh::vectorpair>(r);
  fwd::expect("model::mesh::affineTransform");
  fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<::gmsh::vectorpair>(::gmsh::vectorpair())); else fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::mesh::affineTransform(a0, a1); break;
  case 1: um2::gmsh::model::mesh::affineTransform(a0); break;
  }
}
static void t73(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<std::size_t>>(r);
  auto a1 = fwd::gen<std::vector<double>>(r);
  auto a2 = fwd::gen<std::vector<double>>(r);
  auto a3 = fwd::gen<int>(r);
  auto a4 = fwd::gen<int>(r);
  auto a5 = fwd::gen<bool>(r);
  auto a6 = fwd::gen<bool>(r);
  fwd::expect("model::mesh::getNodes");
  if (omit >= 4) fwd::want(static_cast<int>(-1)); else fwd::want(a3);
  if (omit >= 3) fwd::want(static_cast<int>(-1)); else fwd::want(a4);
  if (omit >= 2) fwd::want(static_cast<bool>(false)); else fwd::want(a5);
  if (omit >= 1) fwd::want(static_cast<bool>(true)); else fwd::want(a6);
  switch (omit) {
  default: um2::gmsh::model::mesh::getNodes(a0, a1, a2, a3, a4, a5, a6); break;
  case 1: um2::gmsh::model::mesh::getNodes(a0, a1, a2, a3, a4, a5); break;
  case 2: um2::gmsh::model::mesh::getNodes(a0, a1, a2, a3, a4); break;
  case 3: um2::gmsh::model::mesh::getNodes(a0, a1, a2, a3); break;
  case 4: um2::gmsh::model::mesh::getNodes(a0, a1, a2); break;
  }
  fwd::got(a0);
  fwd::got(a1);
  fwd::got(a2);
}
static void t74(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<std::size_t>>(r);
  auto a2 = fwd::gen<std::vector<double>>(r);
  auto a3 = fwd::gen<std::vector<double>>(r);
  auto a4 = fwd::gen<int>(r);
  auto a5 = fwd::gen<bool>(r);
  fwd::expect("model::mesh::getNodesByElementType");
  fwd::want(a0);
  if (omit >= 2) fwd::want(static_cast<int>(-1)); else fwd::want(a4);
  if (omit >= 1) fwd::want(static_cast<bool>(true)); else fwd::want(a5);
  switch (omit) {
  default: um2::gmsh::model::mesh::getNodesByElementType(a0, a1, a2, a3, a4, a5); break;
  case 1: um2::gmsh::model::mesh::getNodesByElementType(a0, a1, a2, a3, a4); break;
  case 2: um2::gmsh::model::mesh::getNodesByElementType(a0, a1, a2, a3); break;
  }
  fwd::got(a1);
  fwd::got(a2);
  fwd::got(a3);
}
static void t75(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::size_t>(r);
  auto a1 = fwd::gen<std::vector<double>>(r);
  auto a2 = fwd::gen<std::vector<double>>(r);
  auto a3 = fwd::gen<int>(r);
  auto a4 = fwd::gen<int>(r);
  fwd::expect("model::mesh::getNode");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::mesh::getNode(a0, a1, a2, a3, a4); break;
  }
  fwd::got(a1);
  fwd::got(a2);
  fwd::got(a3);
  fwd::got(a4);
}
static void t76(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::size_t>(r);
  auto a1 = fwd::gen<std::vector<double>>(r);
  auto a2 = fwd::gen<std::vector<double>>(r);
  fwd::expect("model::mesh::setNode");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::mesh::setNode(a0, a1, a2); break;
  }
}
static void t77(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<bool>(r);
  fwd::expect("model::mesh::rebuildNodeCache");
  if (omit >= 1) fwd::want(static_cast<bool>(true)); else fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::mesh::rebuildNodeCache(a0); break;
  case 1: um2::gmsh::model::mesh::rebuildNodeCache(); break;
  }
}
static void t78(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<bool>(r);
  fwd::expect("model::mesh::rebuildElementCache");
  if (omit >= 1) fwd::want(static_cast<bool>(true)); else fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::mesh::rebuildElementCache(a0); break;
  case 1: um2::gmsh::model::mesh::rebuildElementCache(); break;
  }
}
static void t79(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::vector<std::size_t>>(r);
  auto a3 = fwd::gen<std::vector<double>>(r);
  fwd::expect("model::mesh::getNodesForPhysicalGroup");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::mesh::getNodesForPhysicalGroup(a0, a1, a2, a3); break;
  }
  fwd::got(a2);
  fwd::got(a3);
}
static void t80(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::size_t>(r);
  fwd::expect("model::mesh::getMaxNodeTag");
  switch (omit) {
  default: um2::gmsh::model::mesh::getMaxNodeTag(a0); break;
  }
  fwd::got(a0);
}
static void t81(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::vector<std::size_t>>(r);
  auto a3 = fwd::gen<std::vector<double>>(r);
  auto a4 = fwd::gen<std::vector<double>>(r);
  fwd::expect("model::mesh::addNodes");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  if (omit >= 1) fwd::want(static_cast<std::vector<double>>(std::vector<double>())); else fwd::want(a4);
  switch (omit) {
  default: um2::gmsh::model::mesh::addNodes(a0, a1, a2, a3, a4); break;
  case 1: um2::gmsh::model::mesh::addNodes(a0, a1, a2, a3); break;
  }
}
static void t82(vh::Rng & r, int omit)
{
  fwd::expect("model::mesh::reclassifyNodes");
  switch (omit) {
  default: um2::gmsh::model::mesh::reclassifyNodes(); break;
  }
}
static void t83(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  fwd::expect("model::mesh::relocateNodes");
  if (omit >= 2) fwd::want(static_cast<int>(-1)); else fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::mesh::relocateNodes(a0, a1); break;
  case 1: um2::gmsh::model::mesh::relocateNodes(a0); break;
  case 2: um2::gmsh::model::mesh::relocateNodes(); break;
  }
}
static void t84(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  auto a1 = fwd::gen<std::vector<std::vector<std::size_t>>>(r);
  auto a2 = fwd::gen<std::vector<std::vector<std::size_t>>>(r);
  auto a3 = fwd::gen<int>(r);
  auto a4 = fwd::gen<int>(r);
  fwd::expect("model::mesh::getElements");
  if (omit >= 2) fwd::want(static_cast<int>(-1)); else fwd::want(a3);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a4);
  switch (omit) {
  default: um2::gmsh::model::mesh::getElements(a0, a1, a2, a3, a4); break;
  case 1: um2::gmsh::model::mesh::getElements(a0, a1, a2, a3); break;
  case 2: um2::gmsh::model::mesh::getElements(a0, a1, a2); break;
  }
  fwd::got(a0);
  fwd::got(a1);
  fwd::got(a2);
}
static void t85(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::size_t>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::vector<std::size_t>>(r);
  auto a3 = fwd::gen<int>(r);
  auto a4 = fwd::gen<int>(r);
  fwd::expect("model::mesh::getElement");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::mesh::getElement(a0, a1, a2, a3, a4); break;
  }
  fwd::got(a1);
  fwd::got(a2);
  fwd::got(a3);
  fwd::got(a4);
}
static void t86(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<double>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<std::size_t>(r);
  auto a4 = fwd::gen<int>(r);
  auto a5 = fwd::gen<std::vector<std::size_t>>(r);
  auto a6 = fwd::gen<double>(r);
  auto a7 = fwd::gen<double>(r);
  auto a8 = fwd::gen<double>(r);
  auto a9 = fwd::gen<int>(r);
  auto a10 = fwd::gen<bool>(r);
  fwd::expect("model::mesh::getElementByCoordinates");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  if (omit >= 2) fwd::want(static_cast<int>(-1)); else fwd::want(a9);
  if (omit >= 1) fwd::want(static_cast<bool>(false)); else fwd::want(a10);
  switch (omit) {
  default: um2::gmsh::model::mesh::getElementByCoordinates(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10); break;
  case 1: um2::gmsh::model::mesh::getElementByCoordinates(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); break;
  case 2: um2::gmsh::model::mesh::getElementByCoordinates(a0, a1, a2, a3, a4, a5, a6, a7, a8); break;
  }
  fwd::got(a3);
  fwd::got(a4);
  fwd::got(a5);
  fwd::got(a6);
  fwd::got(a7);
  fwd::got(a8);
}
static void t87(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<double>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<std::vector<std::size_t>>(r);
  auto a4 = fwd::gen<int>(r);
  auto a5 = fwd::gen<bool>(r);
  fwd::expect("model::mesh::getElementsByCoordinates");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  if (omit >= 2) fwd::want(static_cast<int>(-1)); else fwd::want(a4);
  if (omit >= 1) fwd::want(static_cast<bool>(false)); else fwd::want(a5);
  switch (omit) {
  default: um2::gmsh::model::mesh::getElementsByCoordinates(a0, a1, a2, a3, a4, a5); break;
  case 1: um2::gmsh::model::mesh::getElementsByCoordinates(a0, a1, a2, a3, a4); break;
  case 2: um2::gmsh::model::mesh::getElementsByCoordinates(a0, a1, a2, a3); break;
  }
  fwd::got(a3);
}
static void t88(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::size_t>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<double>(r);
  auto a5 = fwd::gen<double>(r);
  auto a6 = fwd::gen<double>(r);
  fwd::expect("model::mesh::getLocalCoordinatesInElement");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  switch (omit) {
  default: um2::gmsh::model::mesh::getLocalCoordinatesInElement(a0, a1, a2, a3, a4, a5, a6); break;
  }
  fwd::got(a4);
  fwd::got(a5);
  fwd::got(a6);
}
static void t89(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  fwd::expect("model::mesh::getElementTypes");
  if (omit >= 2) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::mesh::getElementTypes(a0, a1, a2); break;
  case 1: um2::gmsh::model::mesh::getElementTypes(a0, a1); break;
  case 2: um2::gmsh::model::mesh::getElementTypes(a0); break;
  }
  fwd::got(a0);
}
static void t90(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<bool>(r);
  fwd::expect("model::mesh::getElementType");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<bool>(false)); else fwd::want(a2);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::mesh::getElementType(a0, a1, a2); break;
  case 1: rv = um2::gmsh::model::mesh::getElementType(a0, a1); break;
  }
  fwd::gotRet(rv);
}
static void t91(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<int>(r);
  auto a3 = fwd::gen<int>(r);
  auto a4 = fwd::gen<int>(r);
  auto a5 = fwd::gen<std::vector<double>>(r);
  auto a6 = fwd::gen<int>(r);
  fwd::expect("model::mesh::getElementProperties");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::mesh::getElementProperties(a0, a1, a2, a3, a4, a5, a6); break;
  }
  fwd::got(a1);
  fwd::got(a2);
  fwd::got(a3);
  fwd::got(a4);
  fwd::got(a5);
  fwd::got(a6);
}
static void t92(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<std::size_t>>(r);
  auto a2 = fwd::gen<std::vector<std::size_t>>(r);
  auto a3 = fwd::gen<int>(r);
  auto a4 = fwd::gen<std::size_t>(r);
  auto a5 = fwd::gen<std::size_t>(r);
  fwd::expect("model::mesh::getElementsByType");
  fwd::want(a0);
  if (omit >= 3) fwd::want(static_cast<int>(-1)); else fwd::want(a3);
  if (omit >= 2) fwd::want(static_cast<std::size_t>(0)); else fwd::want(a4);
  if (omit >= 1) fwd::want(static_cast<std::size_t>(1)); else fwd::want(a5);
  switch (omit) {
  default: um2::gmsh::model::mesh::getElementsByType(a0, a1, a2, a3, a4, a5); break;
  case 1: um2::gmsh::model::mesh::getElementsByType(a0, a1, a2, a3, a4); break;
  case 2: um2::gmsh::model::mesh::getElementsByType(a0, a1, a2, a3); break;
  case 3: um2::gmsh::model::mesh::getElementsByType(a0, a1, a2); break;
  }
  fwd::got(a1);
  fwd::got(a2);
}
static void t93(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::size_t>(r);
  fwd::expect("model::mesh::getMaxElementTag");
  switch (omit) {
  default: um2::gmsh::model::mesh::getMaxElementTag(a0); break;
  }
  fwd::got(a0);
}
static void t94(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<bool>(r);
  auto a2 = fwd::gen<bool>(r);
  auto a3 = fwd::gen<std::vector<std::size_t>>(r);
  auto a4 = fwd::gen<std::vector<std::size_t>>(r);
  auto a5 = fwd::gen<int>(r);
  fwd::expect("model::mesh::preallocateElementsByType");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a5);
  switch (omit) {
  default: um2::gmsh::model::mesh::preallocateElementsByType(a0, a1, a2, a3, a4, a5); break;
  case 1: um2::gmsh::model::mesh::preallocateElementsByType(a0, a1, a2, a3, a4); break;
  }
  fwd::got(a3);
  fwd::got(a4);
}
static void t95(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<std::size_t>>(r);
  auto a1 = fwd::gen<std::vector<double>>(r);
  auto a2 = fwd::gen<std::string>(r);
  auto a3 = fwd::gen<std::size_t>(r);
  auto a4 = fwd::gen<std::size_t>(r);
  fwd::expect("model::mesh::getElementQualities");
  fwd::want(a0);
  if (omit >= 3) fwd::want(static_cast<std::string>("minSICN")); else fwd::want(a2);
  if (omit >= 2) fwd::want(static_cast<std::size_t>(0)); else fwd::want(a3);
  if (omit >= 1) fwd::want(static_cast<std::size_t>(1)); else fwd::want(a4);
  switch (omit) {
  default: um2::gmsh::model::mesh::getElementQualities(a0, a1, a2, a3, a4); break;
  case 1: um2::gmsh::model::mesh::getElementQualities(a0, a1, a2, a3); break;
  case 2: um2::gmsh::model::mesh::getElementQualities(a0, a1, a2); break;
  case 3: um2::gmsh::model::mesh::getElementQualities(a0, a1); break;
  }
  fwd::got(a1);
}
static void t96(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::vector<int>>(r);
  auto a3 = fwd::gen<std::vector<std::vector<std::size_t>>>(r);
  auto a4 = fwd::gen<std::vector<std::vector<std::size_t>>>(r);
  fwd::expect("model::mesh::addElements");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  switch (omit) {
  default: um2::gmsh::model::mesh::addElements(a0, a1, a2, a3, a4); break;
  }
}
static void t97(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::vector<std::size_t>>(r);
  auto a3 = fwd::gen<std::vector<std::size_t>>(r);
  fwd::expect("model::mesh::addElementsByType");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  switch (omit) {
  default: um2::gmsh::model::mesh::addElementsByType(a0, a1, a2, a3); break;
  }
}
static void t98(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<std::vector<double>>(r);
  auto a3 = fwd::gen<std::vector<double>>(r);
  fwd::expect("model::mesh::getIntegrationPoints");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::mesh::getIntegrationPoints(a0, a1, a2, a3); break;
  }
  fwd::got(a2);
  fwd::got(a3);
}
static void t99(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<double>>(r);
  auto a2 = fwd::gen<std::vector<double>>(r);
  auto a3 = fwd::gen<std::vector<double>>(r);
  auto a4 = fwd::gen<std::vector<double>>(r);
  auto a5 = fwd::gen<int>(r);
  auto a6 = fwd::gen<std::size_t>(r);
  auto a7 = fwd::gen<std::size_t>(r);
  fwd::expect("model::mesh::getJacobians");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 3) fwd::want(static_cast<int>(-1)); else fwd::want(a5);
  if (omit >= 2) fwd::want(static_cast<std::size_t>(0)); else fwd::want(a6);
  if (omit >= 1) fwd::want(static_cast<std::size_t>(1)); else fwd::want(a7);
  switch (omit) {
  default: um2::gmsh::model::mesh::getJacobians(a0, a1, a2, a3, a4, a5, a6, a7); break;
  case 1: um2::gmsh::model::mesh::getJacobians(a0, a1, a2, a3, a4, a5, a6); break;
  case 2: um2::gmsh::model::mesh::getJacobians(a0, a1, a2, a3, a4, a5); break;
  case 3: um2::gmsh::model::mesh::getJacobians(a0, a1, a2, a3, a4); break;
  }
  fwd::got(a2);
  fwd::got(a3);
  fwd::got(a4);
}
static void t100(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<bool>(r);
  auto a3 = fwd::gen<bool>(r);
  auto a4 = fwd::gen<bool>(r);
  auto a5 = fwd::gen<std::vector<double>>(r);
  auto a6 = fwd::gen<std::vector<double>>(r);
  auto a7 = fwd::gen<std::vector<double>>(r);
  auto a8 = fwd::gen<int>(r);
  fwd::expect("model::mesh::preallocateJacobians");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a8);
  switch (omit) {
  default: um2::gmsh::model::mesh::preallocateJacobians(a0, a1, a2, a3, a4, a5, a6, a7, a8); break;
  case 1: um2::gmsh::model::mesh::preallocateJacobians(a0, a1, a2, a3, a4, a5, a6, a7); break;
  }
  fwd::got(a5);
  fwd::got(a6);
  fwd::got(a7);
}
static void t101(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::size_t>(r);
  auto a1 = fwd::gen<std::vector<double>>(r);
  auto a2 = fwd::gen<std::vector<double>>(r);
  auto a3 = fwd::gen<std::vector<double>>(r);
  auto a4 = fwd::gen<std::vector<double>>(r);
  fwd::expect("model::mesh::getJacobian");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::mesh::getJacobian(a0, a1, a2, a3, a4); break;
  }
  fwd::got(a2);
  fwd::got(a3);
  fwd::got(a4);
}
static void t102(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<double>>(r);
  auto a2 = fwd::gen<std::string>(r);
  auto a3 = fwd::gen<int>(r);
  auto a4 = fwd::gen<std::vector<double>>(r);
  auto a5 = fwd::gen<int>(r);
  auto a6 = fwd::gen<std::vector<int>>(r);
  fwd::expect("model::mesh::getBasisFunctions");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  if (omit >= 1) fwd::want(static_cast<std::vector<int>>(std::vector<int>())); else fwd::want(a6);
  switch (omit) {
  default: um2::gmsh::model::mesh::getBasisFunctions(a0, a1, a2, a3, a4, a5, a6); break;
  case 1: um2::gmsh::model::mesh::getBasisFunctions(a0, a1, a2, a3, a4, a5); break;
  }
  fwd::got(a3);
  fwd::got(a4);
  fwd::got(a5);
}
static void t103(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<std::vector<int>>(r);
  auto a3 = fwd::gen<int>(r);
  auto a4 = fwd::gen<std::size_t>(r);
  auto a5 = fwd::gen<std::size_t>(r);
  fwd::expect("model::mesh::getBasisFunctionsOrientation");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 3) fwd::want(static_cast<int>(-1)); else fwd::want(a3);
  if (omit >= 2) fwd::want(static_cast<std::size_t>(0)); else fwd::want(a4);
  if (omit >= 1) fwd::want(static_cast<std::size_t>(1)); else fwd::want(a5);
  switch (omit) {
  default: um2::gmsh::model::mesh::getBasisFunctionsOrientation(a0, a1, a2, a3, a4, a5); break;
  case 1: um2::gmsh::model::mesh::getBasisFunctionsOrientation(a0, a1, a2, a3, a4); break;
  case 2: um2::gmsh::model::mesh::getBasisFunctionsOrientation(a0, a1, a2, a3); break;
  case 3: um2::gmsh::model::mesh::getBasisFunctionsOrientation(a0, a1, a2); break;
  }
  fwd::got(a2);
}
static void t104(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::size_t>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<int>(r);
  fwd::expect("model::mesh::getBasisFunctionsOrientationForElement");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::mesh::getBasisFunctionsOrientationForElement(a0, a1, a2); break;
  }
  fwd::got(a2);
}
static void t105(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::string>(r);
  fwd::expect("model::mesh::getNumberOfOrientations");
  fwd::want(a0);
  fwd::want(a1);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::mesh::getNumberOfOrientations(a0, a1); break;
  }
  fwd::gotRet(rv);
}
static void t106(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<int>>(r);
  auto a2 = fwd::gen<int>(r);
  fwd::expect("model::mesh::preallocateBasisFunctionsOrientation");
  fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::mesh::preallocateBasisFunctionsOrientation(a0, a1, a2); break;
  case 1: um2::gmsh::model::mesh::preallocateBasisFunctionsOrientation(a0, a1); break;
  }
  fwd::got(a1);
}
static void t107(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<std::size_t>>(r);
  auto a1 = fwd::gen<std::vector<std::size_t>>(r);
  auto a2 = fwd::gen<std::vector<int>>(r);
  fwd::expect("model::mesh::getEdges");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::mesh::getEdges(a0, a1, a2); break;
  }
  fwd::got(a1);
  fwd::got(a2);
}
static void t108(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<std::size_t>>(r);
  auto a2 = fwd::gen<std::vector<std::size_t>>(r);
  auto a3 = fwd::gen<std::vector<int>>(r);
  fwd::expect("model::mesh::getFaces");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::mesh::getFaces(a0, a1, a2, a3); break;
  }
  fwd::got(a2);
  fwd::got(a3);
}
static void t109(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  fwd::expect("model::mesh::createEdges");
  if (omit >= 1) fwd::want(static_cast<::gmsh::vectorpair>(::gmsh::vectorpair())); else fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::mesh::createEdges(a0); break;
  case 1: um2::gmsh::model::mesh::createEdges(); break;
  }
}
static void t110(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  fwd::expect("model::mesh::createFaces");
  if (omit >= 1) fwd::want(static_cast<::gmsh::vectorpair>(::gmsh::vectorpair())); else fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::mesh::createFaces(a0); break;
  case 1: um2::gmsh::model::mesh::createFaces(); break;
  }
}
static void t111(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<std::size_t>>(r);
  auto a1 = fwd::gen<std::vector<std::size_t>>(r);
  fwd::expect("model::mesh::getAllEdges");
  switch (omit) {
  default: um2::gmsh::model::mesh::getAllEdges(a0, a1); break;
  }
  fwd::got(a0);
  fwd::got(a1);
}
static void t112(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<std::size_t>>(r);
  auto a2 = fwd::gen<std::vector<std::size_t>>(r);
  fwd::expect("model::mesh::getAllFaces");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::mesh::getAllFaces(a0, a1, a2); break;
  }
  fwd::got(a1);
  fwd::got(a2);
}
static void t113(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<std::size_t>>(r);
  auto a1 = fwd::gen<std::vector<std::size_t>>(r);
  fwd::expect("model::mesh::addEdges");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::mesh::addEdges(a0, a1); break;
  }
}
static void t114(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<std::size_t>>(r);
  auto a2 = fwd::gen<std::vector<std::size_t>>(r);
  fwd::expect("model::mesh::addFaces");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::mesh::addFaces(a0, a1, a2); break;
  }
}
static void t115(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<std::vector<int>>(r);
  auto a3 = fwd::gen<std::vector<std::size_t>>(r);
  auto a4 = fwd::gen<std::vector<double>>(r);
  auto a5 = fwd::gen<int>(r);
  auto a6 = fwd::gen<bool>(r);
  fwd::expect("model::mesh::getKeys");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 2) fwd::want(static_cast<int>(-1)); else fwd::want(a5);
  if (omit >= 1) fwd::want(static_cast<bool>(true)); else fwd::want(a6);
  switch (omit) {
  default: um2::gmsh::model::mesh::getKeys(a0, a1, a2, a3, a4, a5, a6); break;
  case 1: um2::gmsh::model::mesh::getKeys(a0, a1, a2, a3, a4, a5); break;
  case 2: um2::gmsh::model::mesh::getKeys(a0, a1, a2, a3, a4); break;
  }
  fwd::got(a2);
  fwd::got(a3);
  fwd::got(a4);
}
static void t116(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::size_t>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<std::vector<int>>(r);
  auto a3 = fwd::gen<std::vector<std::size_t>>(r);
  auto a4 = fwd::gen<std::vector<double>>(r);
  auto a5 = fwd::gen<bool>(r);
  fwd::expect("model::mesh::getKeysForElement");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<bool>(true)); else fwd::want(a5);
  switch (omit) {
  default: um2::gmsh::model::mesh::getKeysForElement(a0, a1, a2, a3, a4, a5); break;
  case 1: um2::gmsh::model::mesh::getKeysForElement(a0, a1, a2, a3, a4); break;
  }
  fwd::got(a2);
  fwd::got(a3);
  fwd::got(a4);
}
static void t117(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::string>(r);
  fwd::expect("model::mesh::getNumberOfKeys");
  fwd::want(a0);
  fwd::want(a1);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::mesh::getNumberOfKeys(a0, a1); break;
  }
  fwd::gotRet(rv);
}
static void t118(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  auto a1 = fwd::gen<std::vector<std::size_t>>(r);
  auto a2 = fwd::gen<int>(r);
  auto a3 = fwd::gen<std::string>(r);
  auto a4 = fwd::gen<::gmsh::vectorpair>(r);
  fwd::expect("model::mesh::getKeysInformation");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  switch (omit) {
  default: um2::gmsh::model::mesh::getKeysInformation(a0, a1, a2, a3, a4); break;
  }
  fwd::got(a4);
}
static void t119(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<bool>(r);
  auto a3 = fwd::gen<bool>(r);
  auto a4 = fwd::gen<std::vector<double>>(r);
  auto a5 = fwd::gen<std::size_t>(r);
  auto a6 = fwd::gen<std::size_t>(r);
  fwd::expect("model::mesh::getBarycenters");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  if (omit >= 2) fwd::want(static_cast<std::size_t>(0)); else fwd::want(a5);
  if (omit >= 1) fwd::want(static_cast<std::size_t>(1)); else fwd::want(a6);
  switch (omit) {
  default: um2::gmsh::model::mesh::getBarycenters(a0, a1, a2, a3, a4, a5, a6); break;
  case 1: um2::gmsh::model::mesh::getBarycenters(a0, a1, a2, a3, a4, a5); break;
  case 2: um2::gmsh::model::mesh::getBarycenters(a0, a1, a2, a3, a4); break;
  }
  fwd::got(a4);
}
static void t120(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<double>>(r);
  auto a2 = fwd::gen<int>(r);
  fwd::expect("model::mesh::preallocateBarycenters");
  fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::mesh::preallocateBarycenters(a0, a1, a2); break;
  case 1: um2::gmsh::model::mesh::preallocateBarycenters(a0, a1); break;
  }
  fwd::got(a1);
}
static void t121(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<std::size_t>>(r);
  auto a2 = fwd::gen<int>(r);
  auto a3 = fwd::gen<bool>(r);
  auto a4 = fwd::gen<std::size_t>(r);
  auto a5 = fwd::gen<std::size_t>(r);
  fwd::expect("model::mesh::getElementEdgeNodes");
  fwd::want(a0);
  if (omit >= 4) fwd::want(static_cast<int>(-1)); else fwd::want(a2);
  if (omit >= 3) fwd::want(static_cast<bool>(false)); else fwd::want(a3);
  if (omit >= 2) fwd::want(static_cast<std::size_t>(0)); else fwd::want(a4);
  if (omit >= 1) fwd::want(static_cast<std::size_t>(1)); else fwd::want(a5);
  switch (omit) {
  default: um2::gmsh::model::mesh::getElementEdgeNodes(a0, a1, a2, a3, a4, a5); break;
  case 1: um2::gmsh::model::mesh::getElementEdgeNodes(a0, a1, a2, a3, a4); break;
  case 2: um2::gmsh::model::mesh::getElementEdgeNodes(a0, a1, a2, a3); break;
  case 3: um2::gmsh::model::mesh::getElementEdgeNodes(a0, a1, a2); break;
  case 4: um2::gmsh::model::mesh::getElementEdgeNodes(a0, a1); break;
  }
  fwd::got(a1);
}
static void t122(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::vector<std::size_t>>(r);
  auto a3 = fwd::gen<int>(r);
  auto a4 = fwd::gen<bool>(r);
  auto a5 = fwd::gen<std::size_t>(r);
  auto a6 = fwd::gen<std::size_t>(r);
  fwd::expect("model::mesh::getElementFaceNodes");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 4) fwd::want(static_cast<int>(-1)); else fwd::want(a3);
  if (omit >= 3) fwd::want(static_cast<bool>(false)); else fwd::want(a4);
  if (omit >= 2) fwd::want(static_cast<std::size_t>(0)); else fwd::want(a5);
  if (omit >= 1) fwd::want(static_cast<std::size_t>(1)); else fwd::want(a6);
  switch (omit) {
  default: um2::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2, a3, a4, a5, a6); break;
  case 1: um2::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2, a3, a4, a5); break;
  case 2: um2::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2, a3, a4); break;
  case 3: um2::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2, a3); break;
  case 4: um2::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2); break;
  }
  fwd::got(a2);
}
static void t123(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::vector<std::size_t>>(r);
  auto a3 = fwd::gen<std::vector<int>>(r);
  fwd::expect("model::mesh::getGhostElements");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::mesh::getGhostElements(a0, a1, a2, a3); break;
  }
  fwd::got(a2);
  fwd::got(a3);
}
static void t124(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<double>(r);
  fwd::expect("model::mesh::setSize");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::mesh::setSize(a0, a1); break;
  }
}
static void t125(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<std::vector<double>>(r);
  fwd::expect("model::mesh::getSizes");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::mesh::getSizes(a0, a1); break;
  }
  fwd::got(a1);
}
static void t126(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::vector<double>>(r);
  auto a3 = fwd::gen<std::vector<double>>(r);
  fwd::expect("model::mesh::setSizeAtParametricPoints");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  switch (omit) {
  default: um2::gmsh::model::mesh::setSizeAtParametricPoints(a0, a1, a2, a3); break;
  }
}
static void t127(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::function<double(int, int, double, double, double, double)>>(r);
  fwd::expect("model::mesh::setSizeCallback");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::mesh::setSizeCallback(a0); break;
  }
}
static void t128(vh::Rng & r, int omit)
{
  fwd::expect("model::mesh::removeSizeCallback");
  switch (omit) {
  default: um2::gmsh::model::mesh::removeSizeCallback(); break;
  }
}
static void t129(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::string>(r);
  auto a3 = fwd::gen<double>(r);
  fwd::expect("model::mesh::setTransfiniteCurve");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 2) fwd::want(static_cast<std::string>("Progression")); else fwd::want(a2);
  if (omit >= 1) fwd::want(static_cast<double>(1.)); else fwd::want(a3);
  switch (omit) {
  default: um2::gmsh::model::mesh::setTransfiniteCurve(a0, a1, a2, a3); break;
  case 1: um2::gmsh::model::mesh::setTransfiniteCurve(a0, a1, a2); break;
  case 2: um2::gmsh::model::mesh::setTransfiniteCurve(a0, a1); break;
  }
}
static void t130(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<std::vector<int>>(r);
  fwd::expect("model::mesh::setTransfiniteSurface");
  fwd::want(a0);
  if (omit >= 2) fwd::want(static_cast<std::string>("Left")); else fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<std::vector<int>>(std::vector<int>())); else fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::mesh::setTransfiniteSurface(a0, a1, a2); break;
  case 1: um2::gmsh::model::mesh::setTransfiniteSurface(a0, a1); break;
  case 2: um2::gmsh::model::mesh::setTransfiniteSurface(a0); break;
  }
}
static void t131(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<int>>(r);
  fwd::expect("model::mesh::setTransfiniteVolume");
  fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<std::vector<int>>(std::vector<int>())); else fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::mesh::setTransfiniteVolume(a0, a1); break;
  case 1: um2::gmsh::model::mesh::setTransfiniteVolume(a0); break;
  }
}
static void t132(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<bool>(r);
  fwd::expect("model::mesh::setTransfiniteAutomatic");
  if (omit >= 3) fwd::want(static_cast<::gmsh::vectorpair>(::gmsh::vectorpair())); else fwd::want(a0);
  if (omit >= 2) fwd::want(static_cast<double>(2.35)); else fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<bool>(true)); else fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::mesh::setTransfiniteAutomatic(a0, a1, a2); break;
  case 1: um2::gmsh::model::mesh::setTransfiniteAutomatic(a0, a1); break;
  case 2: um2::gmsh::model::mesh::setTransfiniteAutomatic(a0); break;
  case 3: um2::gmsh::model::mesh::setTransfiniteAutomatic(); break;
  }
}
static void t133(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<double>(r);
  fwd::expect("model::mesh::setRecombine");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<double>(45.)); else fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::mesh::setRecombine(a0, a1, a2); break;
  case 1: um2::gmsh::model::mesh::setRecombine(a0, a1); break;
  }
}
static void t134(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  fwd::expect("model::mesh::setSmoothing");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::mesh::setSmoothing(a0, a1, a2); break;
  }
}
static void t135(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<bool>(r);
  fwd::expect("model::mesh::setReverse");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<bool>(true)); else fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::mesh::setReverse(a0, a1, a2); break;
  case 1: um2::gmsh::model::mesh::setReverse(a0, a1); break;
  }
}
static void t136(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  fwd::expect("model::mesh::setAlgorithm");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::mesh::setAlgorithm(a0, a1, a2); break;
  }
}
static void t137(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  fwd::expect("model::mesh::setSizeFromBoundary");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::mesh::setSizeFromBoundary(a0, a1, a2); break;
  }
}
static void t138(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<int>>(r);
  fwd::expect("model::mesh::setCompound");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::mesh::setCompound(a0, a1); break;
  }
}
static void t139(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  fwd::expect("model::mesh::setOutwardOrientation");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::mesh::setOutwardOrientation(a0); break;
  }
}
static void t140(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  fwd::expect("model::mesh::removeConstraints");
  if (omit >= 1) fwd::want(static_cast<::gmsh::vectorpair>(::gmsh::vectorpair())); else fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::mesh::removeConstraints(a0); break;
  case 1: um2::gmsh::model::mesh::removeConstraints(); break;
  }
}
static void t141(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<int>>(r);
  auto a2 = fwd::gen<int>(r);
  auto a3 = fwd::gen<int>(r);
  fwd::expect("model::mesh::embed");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  switch (omit) {
  default: um2::gmsh::model::mesh::embed(a0, a1, a2, a3); break;
  }
}
static void t142(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<int>(r);
  fwd::expect("model::mesh::removeEmbedded");
  fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::mesh::removeEmbedded(a0, a1); break;
  case 1: um2::gmsh::model::mesh::removeEmbedded(a0); break;
  }
}
static void t143(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<::gmsh::vectorpair>(r);
  fwd::expect("model::mesh::getEmbedded");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::mesh::getEmbedded(a0, a1, a2); break;
  }
  fwd::got(a2);
}
static void t144(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::vector<std::size_t>>(r);
  fwd::expect("model::mesh::reorderElements");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::mesh::reorderElements(a0, a1, a2); break;
  }
}
static void t145(vh::Rng & r, int omit)
{
  fwd::expect("model::mesh::renumberNodes");
  fwd::want(std::vector<std::size_t>(std::vector<std::size_t>()));
  fwd::want(std::vector<std::size_t>(std::vector<std::size_t>()));
  switch (omit) {
  default: um2::gmsh::model::mesh::renumberNodes(); break;
  }
}
static void t146(vh::Rng & r, int omit)
{
  fwd::expect("model::mesh::renumberElements");
  fwd::want(std::vector<std::size_t>(std::vector<std::size_t>()));
  fwd::want(std::vector<std::size_t>(std::vector<std::size_t>()));
  switch (omit) {
  default: um2::gmsh::model::mesh::renumberElements(); break;
  }
}
static void t147(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<int>>(r);
  auto a2 = fwd::gen<std::vector<int>>(r);
  auto a3 = fwd::gen<std::vector<double>>(r);
  fwd::expect("model::mesh::setPeriodic");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  switch (omit) {
  default: um2::gmsh::model::mesh::setPeriodic(a0, a1, a2, a3); break;
  }
}
static void t148(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<int>>(r);
  auto a2 = fwd::gen<std::vector<int>>(r);
  fwd::expect("model::mesh::getPeriodic");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::mesh::getPeriodic(a0, a1, a2); break;
  }
  fwd::got(a2);
}
static void t149(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  auto a3 = fwd::gen<std::vector<std::size_t>>(r);
  auto a4 = fwd::gen<std::vector<std::size_t>>(r);
  auto a5 = fwd::gen<std::vector<double>>(r);
  auto a6 = fwd::gen<bool>(r);
  fwd::expect("model::mesh::getPeriodicNodes");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<bool>(false)); else fwd::want(a6);
  switch (omit) {
  default: um2::gmsh::model::mesh::getPeriodicNodes(a0, a1, a2, a3, a4, a5, a6); break;
  case 1: um2::gmsh::model::mesh::getPeriodicNodes(a0, a1, a2, a3, a4, a5); break;
  }
  fwd::got(a2);
  fwd::got(a3);
  fwd::got(a4);
  fwd::got(a5);
}
static void t150(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<int>(r);
  auto a3 = fwd::gen<int>(r);
  auto a4 = fwd::gen<std::vector<int>>(r);
  auto a5 = fwd::gen<std::vector<int>>(r);
  auto a6 = fwd::gen<std::vector<std::size_t>>(r);
  auto a7 = fwd::gen<std::vector<std::size_t>>(r);
  auto a8 = fwd::gen<std::vector<double>>(r);
  auto a9 = fwd::gen<std::vector<double>>(r);
  auto a10 = fwd::gen<bool>(r);
  fwd::expect("model::mesh::getPeriodicKeys");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  if (omit >= 1) fwd::want(static_cast<bool>(true)); else fwd::want(a10);
  switch (omit) {
  default: um2::gmsh::model::mesh::getPeriodicKeys(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10); break;
  case 1: um2::gmsh::model::mesh::getPeriodicKeys(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); break;
  }
  fwd::got(a3);
  fwd::got(a4);
  fwd::got(a5);
  fwd::got(a6);
  fwd::got(a7);
  fwd::got(a8);
  fwd::got(a9);
}
static void t151(vh::Rng & r, int omit)
{
  fwd::expect("model::mesh::importStl");
  switch (omit) {
  default: um2::gmsh::model::mesh::importStl(); break;
  }
}
static void t152(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<std::size_t>>(r);
  auto a1 = fwd::gen<::gmsh::vectorpair>(r);
  fwd::expect("model::mesh::getDuplicateNodes");
  if (omit >= 1) fwd::want(static_cast<::gmsh::vectorpair>(::gmsh::vectorpair())); else fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::mesh::getDuplicateNodes(a0, a1); break;
  case 1: um2::gmsh::model::mesh::getDuplicateNodes(a0); break;
  }
  fwd::got(a0);
}
static void t153(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  fwd::expect("model::mesh::removeDuplicateNodes");
  if (omit >= 1) fwd::want(static_cast<::gmsh::vectorpair>(::gmsh::vectorpair())); else fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::mesh::removeDuplicateNodes(a0); break;
  case 1: um2::gmsh::model::mesh::removeDuplicateNodes(); break;
  }
}
static void t154(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<double>(r);
  auto a1 = fwd::gen<int>(r);
  fwd::expect("model::mesh::splitQuadrangles");
  if (omit >= 2) fwd::want(static_cast<double>(1.)); else fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::mesh::splitQuadrangles(a0, a1); break;
  case 1: um2::gmsh::model::mesh::splitQuadrangles(a0); break;
  case 2: um2::gmsh::model::mesh::splitQuadrangles(); break;
  }
}
static void t155(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<std::size_t>>(r);
  auto a1 = fwd::gen<int>(r);
  fwd::expect("model::mesh::setVisibility");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::mesh::setVisibility(a0, a1); break;
  }
}
static void t156(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<double>(r);
  auto a1 = fwd::gen<bool>(r);
  auto a2 = fwd::gen<bool>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<bool>(r);
  fwd::expect("model::mesh::classifySurfaces");
  fwd::want(a0);
  if (omit >= 4) fwd::want(static_cast<bool>(true)); else fwd::want(a1);
  if (omit >= 3) fwd::want(static_cast<bool>(false)); else fwd::want(a2);
  if (omit >= 2) fwd::want(static_cast<double>(M_PI)); else fwd::want(a3);
  if (omit >= 1) fwd::want(static_cast<bool>(true)); else fwd::want(a4);
  switch (omit) {
  default: um2::gmsh::model::mesh::classifySurfaces(a0, a1, a2, a3, a4); break;
  case 1: um2::gmsh::model::mesh::classifySurfaces(a0, a1, a2, a3); break;
  case 2: um2::gmsh::model::mesh::classifySurfaces(a0, a1, a2); break;
  case 3: um2::gmsh::model::mesh::classifySurfaces(a0, a1); break;
  case 4: um2::gmsh::model::mesh::classifySurfaces(a0); break;
  }
}
static void t157(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  fwd::expect("model::mesh::createGeometry");
  if (omit >= 1) fwd::want(static_cast<::gmsh::vectorpair>(::gmsh::vectorpair())); else fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::mesh::createGeometry(a0); break;
  case 1: um2::gmsh::model::mesh::createGeometry(); break;
  }
}
static void t158(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<bool>(r);
  auto a1 = fwd::gen<bool>(r);
  fwd::expect("model::mesh::createTopology");
  if (omit >= 2) fwd::want(static_cast<bool>(true)); else fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<bool>(true)); else fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::mesh::createTopology(a0, a1); break;
  case 1: um2::gmsh::model::mesh::createTopology(a0); break;
  case 2: um2::gmsh::model::mesh::createTopology(); break;
  }
}
static void t159(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<std::vector<int>>(r);
  auto a2 = fwd::gen<std::vector<int>>(r);
  auto a3 = fwd::gen<std::vector<int>>(r);
  fwd::expect("model::mesh::addHomologyRequest");
  if (omit >= 4) fwd::want(static_cast<std::string>("Homology")); else fwd::want(a0);
  if (omit >= 3) fwd::want(static_cast<std::vector<int>>(std::vector<int>())); else fwd::want(a1);
  if (omit >= 2) fwd::want(static_cast<std::vector<int>>(std::vector<int>())); else fwd::want(a2);
  if (omit >= 1) fwd::want(static_cast<std::vector<int>>(std::vector<int>())); else fwd::want(a3);
  switch (omit) {
  default: um2::gmsh::model::mesh::addHomologyRequest(a0, a1, a2, a3); break;
  case 1: um2::gmsh::model::mesh::addHomologyRequest(a0, a1, a2); break;
  case 2: um2::gmsh::model::mesh::addHomologyRequest(a0, a1); break;
  case 3: um2::gmsh::model::mesh::addHomologyRequest(a0); break;
  case 4: um2::gmsh::model::mesh::addHomologyRequest(); break;
  }
}
static void t160(vh::Rng & r, int omit)
{
  fwd::expect("model::mesh::clearHomologyRequests");
  switch (omit) {
  default: um2::gmsh::model::mesh::clearHomologyRequests(); break;
  }
}
static void t161(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  fwd::expect("model::mesh::computeCrossField");
  switch (omit) {
  default: um2::gmsh::model::mesh::computeCrossField(a0); break;
  }
  fwd::got(a0);
}
static void t162(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<double>>(r);
  auto a1 = fwd::gen<std::vector<std::size_t>>(r);
  fwd::expect("model::mesh::triangulate");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::mesh::triangulate(a0, a1); break;
  }
  fwd::got(a1);
}
static void t163(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<double>>(r);
  auto a1 = fwd::gen<std::vector<std::size_t>>(r);
  fwd::expect("model::mesh::tetrahedralize");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::mesh::tetrahedralize(a0, a1); break;
  }
  fwd::got(a1);
}
static void t164(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<int>(r);
  fwd::expect("model::mesh::field::add");
  fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::mesh::field::add(a0, a1); break;
  case 1: rv = um2::gmsh::model::mesh::field::add(a0); break;
  }
  fwd::gotRet(rv);
}
static void t165(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  fwd::expect("model::mesh::field::remove");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::mesh::field::remove(a0); break;
  }
}
static void t166(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  fwd::expect("model::mesh::field::list");
  switch (omit) {
  default: um2::gmsh::model::mesh::field::list(a0); break;
  }
  fwd::got(a0);
}
static void t167(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::string>(r);
  fwd::expect("model::mesh::field::getType");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::mesh::field::getType(a0, a1); break;
  }
  fwd::got(a1);
}
static void t168(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<double>(r);
  fwd::expect("model::mesh::field::setNumber");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::mesh::field::setNumber(a0, a1, a2); break;
  }
}
static void t169(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<double>(r);
  fwd::expect("model::mesh::field::getNumber");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::mesh::field::getNumber(a0, a1, a2); break;
  }
  fwd::got(a2);
}
static void t170(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<std::string>(r);
  fwd::expect("model::mesh::field::setString");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::mesh::field::setString(a0, a1, a2); break;
  }
}
static void t171(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<std::string>(r);
  fwd::expect("model::mesh::field::getString");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::mesh::field::getString(a0, a1, a2); break;
  }
  fwd::got(a2);
}
static void t172(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<std::vector<double>>(r);
  fwd::expect("model::mesh::field::setNumbers");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::mesh::field::setNumbers(a0, a1, a2); break;
  }
}
static void t173(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<std::vector<double>>(r);
  fwd::expect("model::mesh::field::getNumbers");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::mesh::field::getNumbers(a0, a1, a2); break;
  }
  fwd::got(a2);
}
static void t174(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  fwd::expect("model::mesh::field::setAsBackgroundMesh");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::mesh::field::setAsBackgroundMesh(a0); break;
  }
}
static void t175(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  fwd::expect("model::mesh::field::setAsBoundaryLayer");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::mesh::field::setAsBoundaryLayer(a0); break;
  }
}
static void t176(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<double>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<int>(r);
  fwd::expect("model::geo::addPoint");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  if (omit >= 2) fwd::want(static_cast<double>(0.)); else fwd::want(a3);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a4);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::geo::addPoint(a0, a1, a2, a3, a4); break;
  case 1: rv = um2::gmsh::model::geo::addPoint(a0, a1, a2, a3); break;
  case 2: rv = um2::gmsh::model::geo::addPoint(a0, a1, a2); break;
  }
  fwd::gotRet(rv);
}
static void t177(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  fwd::expect("model::geo::addLine");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a2);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::geo::addLine(a0, a1, a2); break;
  case 1: rv = um2::gmsh::model::geo::addLine(a0, a1); break;
  }
  fwd::gotRet(rv);
}
static void t178(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  auto a3 = fwd::gen<int>(r);
  auto a4 = fwd::gen<double>(r);
  auto a5 = fwd::gen<double>(r);
  auto a6 = fwd::gen<double>(r);
  fwd::expect("model::geo::addCircleArc");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  if (omit >= 4) fwd::want(static_cast<int>(-1)); else fwd::want(a3);
  if (omit >= 3) fwd::want(static_cast<double>(0.)); else fwd::want(a4);
  if (omit >= 2) fwd::want(static_cast<double>(0.)); else fwd::want(a5);
  if (omit >= 1) fwd::want(static_cast<double>(0.)); else fwd::want(a6);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::geo::addCircleArc(a0, a1, a2, a3, a4, a5, a6); break;
  case 1: rv = um2::gmsh::model::geo::addCircleArc(a0, a1, a2, a3, a4, a5); break;
  case 2: rv = um2::gmsh::model::geo::addCircleArc(a0, a1, a2, a3, a4); break;
  case 3: rv = um2::gmsh::model::geo::addCircleArc(a0, a1, a2, a3); break;
  case 4: rv = um2::gmsh::model::geo::addCircleArc(a0, a1, a2); break;
  }
  fwd::gotRet(rv);
}
static void t179(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  auto a3 = fwd::gen<int>(r);
  auto a4 = fwd::gen<int>(r);
  auto a5 = fwd::gen<double>(r);
  auto a6 = fwd::gen<double>(r);
  auto a7 = fwd::gen<double>(r);
  fwd::expect("model::geo::addEllipseArc");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  if (omit >= 4) fwd::want(static_cast<int>(-1)); else fwd::want(a4);
  if (omit >= 3) fwd::want(static_cast<double>(0.)); else fwd::want(a5);
  if (omit >= 2) fwd::want(static_cast<double>(0.)); else fwd::want(a6);
  if (omit >= 1) fwd::want(static_cast<double>(0.)); else fwd::want(a7);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3, a4, a5, a6, a7); break;
  case 1: rv = um2::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3, a4, a5, a6); break;
  case 2: rv = um2::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3, a4, a5); break;
  case 3: rv = um2::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3, a4); break;
  case 4: rv = um2::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3); break;
  }
  fwd::gotRet(rv);
}
static void t180(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  auto a1 = fwd::gen<int>(r);
  fwd::expect("model::geo::addBSpline");
  fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::geo::addBSpline(a0, a1); break;
  case 1: rv = um2::gmsh::model::geo::addBSpline(a0); break;
  }
  fwd::gotRet(rv);
}
static void t181(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  auto a1 = fwd::gen<int>(r);
  fwd::expect("model::geo::addBezier");
  fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::geo::addBezier(a0, a1); break;
  case 1: rv = um2::gmsh::model::geo::addBezier(a0); break;
  }
  fwd::gotRet(rv);
}
static void t182(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  auto a1 = fwd::gen<int>(r);
  fwd::expect("model::geo::addPolyline");
  fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::geo::addPolyline(a0, a1); break;
  case 1: rv = um2::gmsh::model::geo::addPolyline(a0); break;
  }
  fwd::gotRet(rv);
}
static void t183(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  fwd::expect("model::geo::addCompoundSpline");
  fwd::want(a0);
  if (omit >= 2) fwd::want(static_cast<int>(5)); else fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a2);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::geo::addCompoundSpline(a0, a1, a2); break;
  case 1: rv = um2::gmsh::model::geo::addCompoundSpline(a0, a1); break;
  case 2: rv = um2::gmsh::model::geo::addCompoundSpline(a0); break;
  }
  fwd::gotRet(rv);
}
static void t184(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  fwd::expect("model::geo::addCompoundBSpline");
  fwd::want(a0);
  if (omit >= 2) fwd::want(static_cast<int>(20)); else fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a2);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::geo::addCompoundBSpline(a0, a1, a2); break;
  case 1: rv = um2::gmsh::model::geo::addCompoundBSpline(a0, a1); break;
  case 2: rv = um2::gmsh::model::geo::addCompoundBSpline(a0); break;
  }
  fwd::gotRet(rv);
}
static void t185(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<bool>(r);
  fwd::expect("model::geo::addCurveLoop");
  fwd::want(a0);
  if (omit >= 2) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<bool>(false)); else fwd::want(a2);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::geo::addCurveLoop(a0, a1, a2); break;
  case 1: rv = um2::gmsh::model::geo::addCurveLoop(a0, a1); break;
  case 2: rv = um2::gmsh::model::geo::addCurveLoop(a0); break;
  }
  fwd::gotRet(rv);
}
static void t186(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  auto a1 = fwd::gen<std::vector<int>>(r);
  fwd::expect("model::geo::addCurveLoops");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::geo::addCurveLoops(a0, a1); break;
  }
  fwd::got(a1);
}
static void t187(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  auto a1 = fwd::gen<int>(r);
  fwd::expect("model::geo::addPlaneSurface");
  fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::geo::addPlaneSurface(a0, a1); break;
  case 1: rv = um2::gmsh::model::geo::addPlaneSurface(a0); break;
  }
  fwd::gotRet(rv);
}
static void t188(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  fwd::expect("model::geo::addSurfaceFilling");
  fwd::want(a0);
  if (omit >= 2) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a2);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::geo::addSurfaceFilling(a0, a1, a2); break;
  case 1: rv = um2::gmsh::model::geo::addSurfaceFilling(a0, a1); break;
  case 2: rv = um2::gmsh::model::geo::addSurfaceFilling(a0); break;
  }
  fwd::gotRet(rv);
}
static void t189(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<double>(r);
  auto a5 = fwd::gen<double>(r);
  auto a6 = fwd::gen<double>(r);
  auto a7 = fwd::gen<double>(r);
  auto a8 = fwd::gen<::gmsh::vectorpair>(r);
  auto a9 = fwd::gen<std::vector<int>>(r);
  auto a10 = fwd::gen<std::vector<double>>(r);
  auto a11 = fwd::gen<bool>(r);
  fwd::expect("model::geo::revolve");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  fwd::want(a5);
  fwd::want(a6);
  fwd::want(a7);
  if (omit >= 3) fwd::want(static_cast<std::vector<int>>(std::vector<int>())); else fwd::want(a9);
  if (omit >= 2) fwd::want(static_cast<std::vector<double>>(std::vector<double>())); else fwd::want(a10);
  if (omit >= 1) fwd::want(static_cast<bool>(false)); else fwd::want(a11);
  switch (omit) {
  default: um2::gmsh::model::geo::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11); break;
  case 1: um2::gmsh::model::geo::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10); break;
  case 2: um2::gmsh::model::geo::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); break;
  case 3: um2::gmsh::model::geo::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8); break;
  }
  fwd::got(a8);
}
static void t190(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<double>(r);
  auto a5 = fwd::gen<double>(r);
  auto a6 = fwd::gen<double>(r);
  auto a7 = fwd::gen<double>(r);
  auto a8 = fwd::gen<double>(r);
  auto a9 = fwd::gen<double>(r);
  auto a10 = fwd::gen<double>(r);
  auto a11 = fwd::gen<::gmsh::vectorpair>(r);
  auto a12 = fwd::gen<std::vector<int>>(r);
  auto a13 = fwd::gen<std::vector<double>>(r);
  auto a14 = fwd::gen<bool>(r);
  fwd::expect("model::geo::twist");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  fwd::want(a5);
  fwd::want(a6);
  fwd::want(a7);
  fwd::want(a8);
  fwd::want(a9);
  fwd::want(a10);
  if (omit >= 3) fwd::want(static_cast<std::vector<int>>(std::vector<int>())); else fwd::want(a12);
  if (omit >= 2) fwd::want(static_cast<std::vector<double>>(std::vector<double>())); else fwd::want(a13);
  if (omit >= 1) fwd::want(static_cast<bool>(false)); else fwd::want(a14);
  switch (omit) {
  default: um2::gmsh::model::geo::twist(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14); break;
  case 1: um2::gmsh::model::geo::twist(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13); break;
  case 2: um2::gmsh::model::geo::twist(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12); break;
  case 3: um2::gmsh::model::geo::twist(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11); break;
  }
  fwd::got(a11);
}
static void t191(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<::gmsh::vectorpair>(r);
  auto a2 = fwd::gen<std::vector<int>>(r);
  auto a3 = fwd::gen<std::vector<double>>(r);
  auto a4 = fwd::gen<bool>(r);
  auto a5 = fwd::gen<bool>(r);
  auto a6 = fwd::gen<int>(r);
  fwd::expect("model::geo::extrudeBoundaryLayer");
  fwd::want(a0);
  if (omit >= 5) fwd::want(static_cast<std::vector<int>>(std::vector<int>(1, 1))); else fwd::want(a2);
  if (omit >= 4) fwd::want(static_cast<std::vector<double>>(std::vector<double>())); else fwd::want(a3);
  if (omit >= 3) fwd::want(static_cast<bool>(false)); else fwd::want(a4);
  if (omit >= 2) fwd::want(static_cast<bool>(false)); else fwd::want(a5);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a6);
  switch (omit) {
  default: um2::gmsh::model::geo::extrudeBoundaryLayer(a0, a1, a2, a3, a4, a5, a6); break;
  case 1: um2::gmsh::model::geo::extrudeBoundaryLayer(a0, a1, a2, a3, a4, a5); break;
  case 2: um2::gmsh::model::geo::extrudeBoundaryLayer(a0, a1, a2, a3, a4); break;
  case 3: um2::gmsh::model::geo::extrudeBoundaryLayer(a0, a1, a2, a3); break;
  case 4: um2::gmsh::model::geo::extrudeBoundaryLayer(a0, a1, a2); break;
  case 5: um2::gmsh::model::geo::extrudeBoundaryLayer(a0, a1); break;
  }
  fwd::got(a1);
}
static void t192(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  fwd::expect("model::geo::translate");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  switch (omit) {
  default: um2::gmsh::model::geo::translate(a0, a1, a2, a3); break;
  }
}
static void t193(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<double>(r);
  auto a5 = fwd::gen<double>(r);
  auto a6 = fwd::gen<double>(r);
  auto a7 = fwd::gen<double>(r);
  fwd::expect("model::geo::rotate");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  fwd::want(a5);
  fwd::want(a6);
  fwd::want(a7);
  switch (omit) {
  default: um2::gmsh::model::geo::rotate(a0, a1, a2, a3, a4, a5, a6, a7); break;
  }
}
static void t194(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<double>(r);
  auto a5 = fwd::gen<double>(r);
  auto a6 = fwd::gen<double>(r);
  fwd::expect("model::geo::dilate");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  fwd::want(a5);
  fwd::want(a6);
  switch (omit) {
  default: um2::gmsh::model::geo::dilate(a0, a1, a2, a3, a4, a5, a6); break;
  }
}
static void t195(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<double>(r);
  fwd::expect("model::geo::mirror");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  switch (omit) {
  default: um2::gmsh::model::geo::mirror(a0, a1, a2, a3, a4); break;
  }
}
static void t196(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<double>(r);
  fwd::expect("model::geo::symmetrize");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  switch (omit) {
  default: um2::gmsh::model::geo::symmetrize(a0, a1, a2, a3, a4); break;
  }
}
static void t197(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<::gmsh::vectorpair>(r);
  fwd::expect("model::geo::copy");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::geo::copy(a0, a1); break;
  }
  fwd::got(a1);
}
static void t198(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<bool>(r);
  fwd::expect("model::geo::remove");
  fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<bool>(false)); else fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::geo::remove(a0, a1); break;
  case 1: um2::gmsh::model::geo::remove(a0); break;
  }
}
static void t199(vh::Rng & r, int omit)
{
  fwd::expect("model::geo::removeAllDuplicates");
  switch (omit) {
  default: um2::gmsh::model::geo::removeAllDuplicates(); break;
  }
}
static void t200(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<int>>(r);
  auto a2 = fwd::gen<std::vector<int>>(r);
  fwd::expect("model::geo::splitCurve");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::geo::splitCurve(a0, a1, a2); break;
  }
  fwd::got(a2);
}
static void t201(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  fwd::expect("model::geo::getMaxTag");
  fwd::want(a0);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::geo::getMaxTag(a0); break;
  }
  fwd::gotRet(rv);
}
static void t202(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  fwd::expect("model::geo::setMaxTag");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::geo::setMaxTag(a0, a1); break;
  }
}
static void t203(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<int>>(r);
  auto a2 = fwd::gen<int>(r);
  auto a3 = fwd::gen<std::string>(r);
  fwd::expect("model::geo::addPhysicalGroup");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 2) fwd::want(static_cast<int>(-1)); else fwd::want(a2);
  if (omit >= 1) fwd::want(static_cast<std::string>("")); else fwd::want(a3);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::geo::addPhysicalGroup(a0, a1, a2, a3); break;
  case 1: rv = um2::gmsh::model::geo::addPhysicalGroup(a0, a1, a2); break;
  case 2: rv = um2::gmsh::model::geo::addPhysicalGroup(a0, a1); break;
  }
  fwd::gotRet(rv);
}
static void t204(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  fwd::expect("model::geo::removePhysicalGroups");
  if (omit >= 1) fwd::want(static_cast<::gmsh::vectorpair>(::gmsh::vectorpair())); else fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::geo::removePhysicalGroups(a0); break;
  case 1: um2::gmsh::model::geo::removePhysicalGroups(); break;
  }
}
static void t205(vh::Rng & r, int omit)
{
  fwd::expect("model::geo::synchronize");
  switch (omit) {
  default: um2::gmsh::model::geo::synchronize(); break;
  }
}
static void t206(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<double>(r);
  fwd::expect("model::geo::mesh::setSize");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::geo::mesh::setSize(a0, a1); break;
  }
}
static void t207(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::string>(r);
  auto a3 = fwd::gen<double>(r);
  fwd::expect("model::geo::mesh::setTransfiniteCurve");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 2) fwd::want(static_cast<std::string>("Progression")); else fwd::want(a2);
  if (omit >= 1) fwd::want(static_cast<double>(1.)); else fwd::want(a3);
  switch (omit) {
  default: um2::gmsh::model::geo::mesh::setTransfiniteCurve(a0, a1, a2, a3); break;
  case 1: um2::gmsh::model::geo::mesh::setTransfiniteCurve(a0, a1, a2); break;
  case 2: um2::gmsh::model::geo::mesh::setTransfiniteCurve(a0, a1); break;
  }
}
static void t208(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<std::vector<int>>(r);
  fwd::expect("model::geo::mesh::setTransfiniteSurface");
  fwd::want(a0);
  if (omit >= 2) fwd::want(static_cast<std::string>("Left")); else fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<std::vector<int>>(std::vector<int>())); else fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::geo::mesh::setTransfiniteSurface(a0, a1, a2); break;
  case 1: um2::gmsh::model::geo::mesh::setTransfiniteSurface(a0, a1); break;
  case 2: um2::gmsh::model::geo::mesh::setTransfiniteSurface(a0); break;
  }
}
static void t209(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<int>>(r);
  fwd::expect("model::geo::mesh::setTransfiniteVolume");
  fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<std::vector<int>>(std::vector<int>())); else fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::geo::mesh::setTransfiniteVolume(a0, a1); break;
  case 1: um2::gmsh::model::geo::mesh::setTransfiniteVolume(a0); break;
  }
}
static void t210(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<double>(r);
  fwd::expect("model::geo::mesh::setRecombine");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<double>(45.)); else fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::geo::mesh::setRecombine(a0, a1, a2); break;
  case 1: um2::gmsh::model::geo::mesh::setRecombine(a0, a1); break;
  }
}
static void t211(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  fwd::expect("model::geo::mesh::setSmoothing");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::geo::mesh::setSmoothing(a0, a1, a2); break;
  }
}
static void t212(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<bool>(r);
  fwd::expect("model::geo::mesh::setReverse");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<bool>(true)); else fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::geo::mesh::setReverse(a0, a1, a2); break;
  case 1: um2::gmsh::model::geo::mesh::setReverse(a0, a1); break;
  }
}
static void t213(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  fwd::expect("model::geo::mesh::setAlgorithm");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::geo::mesh::setAlgorithm(a0, a1, a2); break;
  }
}
static void t214(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  fwd::expect("model::geo::mesh::setSizeFromBoundary");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::geo::mesh::setSizeFromBoundary(a0, a1, a2); break;
  }
}
static void t215(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<double>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<int>(r);
  fwd::expect("model::occ::addPoint");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  if (omit >= 2) fwd::want(static_cast<double>(0.)); else fwd::want(a3);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a4);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addPoint(a0, a1, a2, a3, a4); break;
  case 1: rv = um2::gmsh::model::occ::addPoint(a0, a1, a2, a3); break;
  case 2: rv = um2::gmsh::model::occ::addPoint(a0, a1, a2); break;
  }
  fwd::gotRet(rv);
}
static void t216(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  fwd::expect("model::occ::addLine");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a2);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addLine(a0, a1, a2); break;
  case 1: rv = um2::gmsh::model::occ::addLine(a0, a1); break;
  }
  fwd::gotRet(rv);
}
static void t217(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  auto a3 = fwd::gen<int>(r);
  fwd::expect("model::occ::addCircleArc");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a3);
  fwd::want(bool(true));
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addCircleArc(a0, a1, a2, a3); break;
  case 1: rv = um2::gmsh::model::occ::addCircleArc(a0, a1, a2); break;
  }
  fwd::gotRet(rv);
}
static void t218(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<double>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<int>(r);
  auto a5 = fwd::gen<double>(r);
  auto a6 = fwd::gen<double>(r);
  auto a7 = fwd::gen<std::vector<double>>(r);
  auto a8 = fwd::gen<std::vector<double>>(r);
  fwd::expect("model::occ::addCircle");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  if (omit >= 5) fwd::want(static_cast<int>(-1)); else fwd::want(a4);
  if (omit >= 4) fwd::want(static_cast<double>(0.)); else fwd::want(a5);
  if (omit >= 3) fwd::want(static_cast<double>(2*M_PI)); else fwd::want(a6);
  if (omit >= 2) fwd::want(static_cast<std::vector<double>>(std::vector<double>())); else fwd::want(a7);
  if (omit >= 1) fwd::want(static_cast<std::vector<double>>(std::vector<double>())); else fwd::want(a8);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addCircle(a0, a1, a2, a3, a4, a5, a6, a7, a8); break;
  case 1: rv = um2::gmsh::model::occ::addCircle(a0, a1, a2, a3, a4, a5, a6, a7); break;
  case 2: rv = um2::gmsh::model::occ::addCircle(a0, a1, a2, a3, a4, a5, a6); break;
  case 3: rv = um2::gmsh::model::occ::addCircle(a0, a1, a2, a3, a4, a5); break;
  case 4: rv = um2::gmsh::model::occ::addCircle(a0, a1, a2, a3, a4); break;
  case 5: rv = um2::gmsh::model::occ::addCircle(a0, a1, a2, a3); break;
  }
  fwd::gotRet(rv);
}
static void t219(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  auto a3 = fwd::gen<int>(r);
  auto a4 = fwd::gen<int>(r);
  fwd::expect("model::occ::addEllipseArc");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a4);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addEllipseArc(a0, a1, a2, a3, a4); break;
  case 1: rv = um2::gmsh::model::occ::addEllipseArc(a0, a1, a2, a3); break;
  }
  fwd::gotRet(rv);
}
static void t220(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<double>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<double>(r);
  auto a5 = fwd::gen<int>(r);
  auto a6 = fwd::gen<double>(r);
  auto a7 = fwd::gen<double>(r);
  auto a8 = fwd::gen<std::vector<double>>(r);
  auto a9 = fwd::gen<std::vector<double>>(r);
  fwd::expect("model::occ::addEllipse");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  if (omit >= 5) fwd::want(static_cast<int>(-1)); else fwd::want(a5);
  if (omit >= 4) fwd::want(static_cast<double>(0.)); else fwd::want(a6);
  if (omit >= 3) fwd::want(static_cast<double>(2*M_PI)); else fwd::want(a7);
  if (omit >= 2) fwd::want(static_cast<std::vector<double>>(std::vector<double>())); else fwd::want(a8);
  if (omit >= 1) fwd::want(static_cast<std::vector<double>>(std::vector<double>())); else fwd::want(a9);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); break;
  case 1: rv = um2::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4, a5, a6, a7, a8); break;
  case 2: rv = um2::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4, a5, a6, a7); break;
  case 3: rv = um2::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4, a5, a6); break;
  case 4: rv = um2::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4, a5); break;
  case 5: rv = um2::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4); break;
  }
  fwd::gotRet(rv);
}
static void t221(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  auto a3 = fwd::gen<std::vector<double>>(r);
  auto a4 = fwd::gen<std::vector<double>>(r);
  auto a5 = fwd::gen<std::vector<int>>(r);
  fwd::expect("model::occ::addBSpline");
  fwd::want(a0);
  if (omit >= 5) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  if (omit >= 4) fwd::want(static_cast<int>(3)); else fwd::want(a2);
  if (omit >= 3) fwd::want(static_cast<std::vector<double>>(std::vector<double>())); else fwd::want(a3);
  if (omit >= 2) fwd::want(static_cast<std::vector<double>>(std::vector<double>())); else fwd::want(a4);
  if (omit >= 1) fwd::want(static_cast<std::vector<int>>(std::vector<int>())); else fwd::want(a5);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addBSpline(a0, a1, a2, a3, a4, a5); break;
  case 1: rv = um2::gmsh::model::occ::addBSpline(a0, a1, a2, a3, a4); break;
  case 2: rv = um2::gmsh::model::occ::addBSpline(a0, a1, a2, a3); break;
  case 3: rv = um2::gmsh::model::occ::addBSpline(a0, a1, a2); break;
  case 4: rv = um2::gmsh::model::occ::addBSpline(a0, a1); break;
  case 5: rv = um2::gmsh::model::occ::addBSpline(a0); break;
  }
  fwd::gotRet(rv);
}
static void t222(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  auto a1 = fwd::gen<int>(r);
  fwd::expect("model::occ::addBezier");
  fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addBezier(a0, a1); break;
  case 1: rv = um2::gmsh::model::occ::addBezier(a0); break;
  }
  fwd::gotRet(rv);
}
static void t223(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<bool>(r);
  fwd::expect("model::occ::addWire");
  fwd::want(a0);
  if (omit >= 2) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<bool>(false)); else fwd::want(a2);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addWire(a0, a1, a2); break;
  case 1: rv = um2::gmsh::model::occ::addWire(a0, a1); break;
  case 2: rv = um2::gmsh::model::occ::addWire(a0); break;
  }
  fwd::gotRet(rv);
}
static void t224(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  auto a1 = fwd::gen<int>(r);
  fwd::expect("model::occ::addCurveLoop");
  fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addCurveLoop(a0, a1); break;
  case 1: rv = um2::gmsh::model::occ::addCurveLoop(a0); break;
  }
  fwd::gotRet(rv);
}
static void t225(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<double>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<double>(r);
  auto a5 = fwd::gen<int>(r);
  auto a6 = fwd::gen<double>(r);
  fwd::expect("model::occ::addRectangle");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  if (omit >= 2) fwd::want(static_cast<int>(-1)); else fwd::want(a5);
  if (omit >= 1) fwd::want(static_cast<double>(0.)); else fwd::want(a6);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addRectangle(a0, a1, a2, a3, a4, a5, a6); break;
  case 1: rv = um2::gmsh::model::occ::addRectangle(a0, a1, a2, a3, a4, a5); break;
  case 2: rv = um2::gmsh::model::occ::addRectangle(a0, a1, a2, a3, a4); break;
  }
  fwd::gotRet(rv);
}
static void t226(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<double>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<double>(r);
  auto a5 = fwd::gen<int>(r);
  auto a6 = fwd::gen<std::vector<double>>(r);
  auto a7 = fwd::gen<std::vector<double>>(r);
  fwd::expect("model::occ::addDisk");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  if (omit >= 3) fwd::want(static_cast<int>(-1)); else fwd::want(a5);
  if (omit >= 2) fwd::want(static_cast<std::vector<double>>(std::vector<double>())); else fwd::want(a6);
  if (omit >= 1) fwd::want(static_cast<std::vector<double>>(std::vector<double>())); else fwd::want(a7);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addDisk(a0, a1, a2, a3, a4, a5, a6, a7); break;
  case 1: rv = um2::gmsh::model::occ::addDisk(a0, a1, a2, a3, a4, a5, a6); break;
  case 2: rv = um2::gmsh::model::occ::addDisk(a0, a1, a2, a3, a4, a5); break;
  case 3: rv = um2::gmsh::model::occ::addDisk(a0, a1, a2, a3, a4); break;
  }
  fwd::gotRet(rv);
}
static void t227(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  auto a1 = fwd::gen<int>(r);
  fwd::expect("model::occ::addPlaneSurface");
  fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addPlaneSurface(a0, a1); break;
  case 1: rv = um2::gmsh::model::occ::addPlaneSurface(a0); break;
  }
  fwd::gotRet(rv);
}
static void t228(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::vector<int>>(r);
  auto a3 = fwd::gen<int>(r);
  auto a4 = fwd::gen<int>(r);
  auto a5 = fwd::gen<int>(r);
  auto a6 = fwd::gen<bool>(r);
  auto a7 = fwd::gen<double>(r);
  auto a8 = fwd::gen<double>(r);
  auto a9 = fwd::gen<double>(r);
  auto a10 = fwd::gen<double>(r);
  auto a11 = fwd::gen<int>(r);
  auto a12 = fwd::gen<int>(r);
  fwd::expect("model::occ::addSurfaceFilling");
  fwd::want(a0);
  if (omit >= 12) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  if (omit >= 11) fwd::want(static_cast<std::vector<int>>(std::vector<int>())); else fwd::want(a2);
  if (omit >= 10) fwd::want(static_cast<int>(3)); else fwd::want(a3);
  if (omit >= 9) fwd::want(static_cast<int>(15)); else fwd::want(a4);
  if (omit >= 8) fwd::want(static_cast<int>(2)); else fwd::want(a5);
  if (omit >= 7) fwd::want(static_cast<bool>(false)); else fwd::want(a6);
  if (omit >= 6) fwd::want(static_cast<double>(0.00001)); else fwd::want(a7);
  if (omit >= 5) fwd::want(static_cast<double>(0.0001)); else fwd::want(a8);
  if (omit >= 4) fwd::want(static_cast<double>(0.01)); else fwd::want(a9);
  if (omit >= 3) fwd::want(static_cast<double>(0.1)); else fwd::want(a10);
  if (omit >= 2) fwd::want(static_cast<int>(8)); else fwd::want(a11);
  if (omit >= 1) fwd::want(static_cast<int>(9)); else fwd::want(a12);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12); break;
  case 1: rv = um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11); break;
  case 2: rv = um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10); break;
  case 3: rv = um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); break;
  case 4: rv = um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7, a8); break;
  case 5: rv = um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7); break;
  case 6: rv = um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6); break;
  case 7: rv = um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5); break;
  case 8: rv = um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4); break;
  case 9: rv = um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3); break;
  case 10: rv = um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2); break;
  case 11: rv = um2::gmsh::model::occ::addSurfaceFilling(a0, a1); break;
  case 12: rv = um2::gmsh::model::occ::addSurfaceFilling(a0); break;
  }
  fwd::gotRet(rv);
}
static void t229(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::string>(r);
  fwd::expect("model::occ::addBSplineFilling");
  fwd::want(a0);
  if (omit >= 2) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<std::string>("")); else fwd::want(a2);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addBSplineFilling(a0, a1, a2); break;
  case 1: rv = um2::gmsh::model::occ::addBSplineFilling(a0, a1); break;
  case 2: rv = um2::gmsh::model::occ::addBSplineFilling(a0); break;
  }
  fwd::gotRet(rv);
}
static void t230(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::string>(r);
  fwd::expect("model::occ::addBezierFilling");
  fwd::want(a0);
  if (omit >= 2) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<std::string>("")); else fwd::want(a2);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addBezierFilling(a0, a1, a2); break;
  case 1: rv = um2::gmsh::model::occ::addBezierFilling(a0, a1); break;
  case 2: rv = um2::gmsh::model::occ::addBezierFilling(a0); break;
  }
  fwd::gotRet(rv);
}
static void t231(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  auto a3 = fwd::gen<int>(r);
  auto a4 = fwd::gen<int>(r);
  auto a5 = fwd::gen<std::vector<double>>(r);
  auto a6 = fwd::gen<std::vector<double>>(r);
  auto a7 = fwd::gen<std::vector<double>>(r);
  auto a8 = fwd::gen<std::vector<int>>(r);
  auto a9 = fwd::gen<std::vector<int>>(r);
  auto a10 = fwd::gen<std::vector<int>>(r);
  auto a11 = fwd::gen<bool>(r);
  fwd::expect("model::occ::addBSplineSurface");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 10) fwd::want(static_cast<int>(-1)); else fwd::want(a2);
  if (omit >= 9) fwd::want(static_cast<int>(3)); else fwd::want(a3);
  if (omit >= 8) fwd::want(static_cast<int>(3)); else fwd::want(a4);
  if (omit >= 7) fwd::want(static_cast<std::vector<double>>(std::vector<double>())); else fwd::want(a5);
  if (omit >= 6) fwd::want(static_cast<std::vector<double>>(std::vector<double>())); else fwd::want(a6);
  if (omit >= 5) fwd::want(static_cast<std::vector<double>>(std::vector<double>())); else fwd::want(a7);
  if (omit >= 4) fwd::want(static_cast<std::vector<int>>(std::vector<int>())); else fwd::want(a8);
  if (omit >= 3) fwd::want(static_cast<std::vector<int>>(std::vector<int>())); else fwd::want(a9);
  if (omit >= 2) fwd::want(static_cast<std::vector<int>>(std::vector<int>())); else fwd::want(a10);
  if (omit >= 1) fwd::want(static_cast<bool>(false)); else fwd::want(a11);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11); break;
  case 1: rv = um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10); break;
  case 2: rv = um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); break;
  case 3: rv = um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6, a7, a8); break;
  case 4: rv = um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6, a7); break;
  case 5: rv = um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6); break;
  case 6: rv = um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5); break;
  case 7: rv = um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4); break;
  case 8: rv = um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3); break;
  case 9: rv = um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2); break;
  case 10: rv = um2::gmsh::model::occ::addBSplineSurface(a0, a1); break;
  }
  fwd::gotRet(rv);
}
static void t232(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  auto a3 = fwd::gen<std::vector<int>>(r);
  auto a4 = fwd::gen<bool>(r);
  fwd::expect("model::occ::addBezierSurface");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 3) fwd::want(static_cast<int>(-1)); else fwd::want(a2);
  if (omit >= 2) fwd::want(static_cast<std::vector<int>>(std::vector<int>())); else fwd::want(a3);
  if (omit >= 1) fwd::want(static_cast<bool>(false)); else fwd::want(a4);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addBezierSurface(a0, a1, a2, a3, a4); break;
  case 1: rv = um2::gmsh::model::occ::addBezierSurface(a0, a1, a2, a3); break;
  case 2: rv = um2::gmsh::model::occ::addBezierSurface(a0, a1, a2); break;
  case 3: rv = um2::gmsh::model::occ::addBezierSurface(a0, a1); break;
  }
  fwd::gotRet(rv);
}
static void t233(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<int>>(r);
  auto a2 = fwd::gen<bool>(r);
  auto a3 = fwd::gen<int>(r);
  fwd::expect("model::occ::addTrimmedSurface");
  fwd::want(a0);
  if (omit >= 3) fwd::want(static_cast<std::vector<int>>(std::vector<int>())); else fwd::want(a1);
  if (omit >= 2) fwd::want(static_cast<bool>(false)); else fwd::want(a2);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a3);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addTrimmedSurface(a0, a1, a2, a3); break;
  case 1: rv = um2::gmsh::model::occ::addTrimmedSurface(a0, a1, a2); break;
  case 2: rv = um2::gmsh::model::occ::addTrimmedSurface(a0, a1); break;
  case 3: rv = um2::gmsh::model::occ::addTrimmedSurface(a0); break;
  }
  fwd::gotRet(rv);
}
static void t234(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<bool>(r);
  fwd::expect("model::occ::addSurfaceLoop");
  fwd::want(a0);
  if (omit >= 2) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<bool>(false)); else fwd::want(a2);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addSurfaceLoop(a0, a1, a2); break;
  case 1: rv = um2::gmsh::model::occ::addSurfaceLoop(a0, a1); break;
  case 2: rv = um2::gmsh::model::occ::addSurfaceLoop(a0); break;
  }
  fwd::gotRet(rv);
}
static void t235(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  auto a1 = fwd::gen<int>(r);
  fwd::expect("model::occ::addVolume");
  fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addVolume(a0, a1); break;
  case 1: rv = um2::gmsh::model::occ::addVolume(a0); break;
  }
  fwd::gotRet(rv);
}
static void t236(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<double>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<int>(r);
  auto a5 = fwd::gen<double>(r);
  auto a6 = fwd::gen<double>(r);
  auto a7 = fwd::gen<double>(r);
  fwd::expect("model::occ::addSphere");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  if (omit >= 4) fwd::want(static_cast<int>(-1)); else fwd::want(a4);
  if (omit >= 3) fwd::want(static_cast<double>(-M_PI/2)); else fwd::want(a5);
  if (omit >= 2) fwd::want(static_cast<double>(M_PI/2)); else fwd::want(a6);
  if (omit >= 1) fwd::want(static_cast<double>(2*M_PI)); else fwd::want(a7);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addSphere(a0, a1, a2, a3, a4, a5, a6, a7); break;
  case 1: rv = um2::gmsh::model::occ::addSphere(a0, a1, a2, a3, a4, a5, a6); break;
  case 2: rv = um2::gmsh::model::occ::addSphere(a0, a1, a2, a3, a4, a5); break;
  case 3: rv = um2::gmsh::model::occ::addSphere(a0, a1, a2, a3, a4); break;
  case 4: rv = um2::gmsh::model::occ::addSphere(a0, a1, a2, a3); break;
  }
  fwd::gotRet(rv);
}
static void t237(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<double>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<double>(r);
  auto a5 = fwd::gen<double>(r);
  auto a6 = fwd::gen<int>(r);
  fwd::expect("model::occ::addBox");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  fwd::want(a5);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a6);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addBox(a0, a1, a2, a3, a4, a5, a6); break;
  case 1: rv = um2::gmsh::model::occ::addBox(a0, a1, a2, a3, a4, a5); break;
  }
  fwd::gotRet(rv);
}
static void t238(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<double>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<double>(r);
  auto a5 = fwd::gen<double>(r);
  auto a6 = fwd::gen<double>(r);
  auto a7 = fwd::gen<int>(r);
  auto a8 = fwd::gen<double>(r);
  fwd::expect("model::occ::addCylinder");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  fwd::want(a5);
  fwd::want(a6);
  if (omit >= 2) fwd::want(static_cast<int>(-1)); else fwd::want(a7);
  if (omit >= 1) fwd::want(static_cast<double>(2*M_PI)); else fwd::want(a8);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addCylinder(a0, a1, a2, a3, a4, a5, a6, a7, a8); break;
  case 1: rv = um2::gmsh::model::occ::addCylinder(a0, a1, a2, a3, a4, a5, a6, a7); break;
  case 2: rv = um2::gmsh::model::occ::addCylinder(a0, a1, a2, a3, a4, a5, a6); break;
  }
  fwd::gotRet(rv);
}
static void t239(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<double>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<double>(r);
  auto a5 = fwd::gen<double>(r);
  auto a6 = fwd::gen<double>(r);
  auto a7 = fwd::gen<double>(r);
  auto a8 = fwd::gen<int>(r);
  auto a9 = fwd::gen<double>(r);
  fwd::expect("model::occ::addCone");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  fwd::want(a5);
  fwd::want(a6);
  fwd::want(a7);
  if (omit >= 2) fwd::want(static_cast<int>(-1)); else fwd::want(a8);
  if (omit >= 1) fwd::want(static_cast<double>(2*M_PI)); else fwd::want(a9);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addCone(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); break;
  case 1: rv = um2::gmsh::model::occ::addCone(a0, a1, a2, a3, a4, a5, a6, a7, a8); break;
  case 2: rv = um2::gmsh::model::occ::addCone(a0, a1, a2, a3, a4, a5, a6, a7); break;
  }
  fwd::gotRet(rv);
}
static void t240(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<double>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<double>(r);
  auto a5 = fwd::gen<double>(r);
  auto a6 = fwd::gen<int>(r);
  auto a7 = fwd::gen<double>(r);
  auto a8 = fwd::gen<std::vector<double>>(r);
  fwd::expect("model::occ::addWedge");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  fwd::want(a5);
  if (omit >= 3) fwd::want(static_cast<int>(-1)); else fwd::want(a6);
  if (omit >= 2) fwd::want(static_cast<double>(0.)); else fwd::want(a7);
  if (omit >= 1) fwd::want(static_cast<std::vector<double>>(std::vector<double>())); else fwd::want(a8);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addWedge(a0, a1, a2, a3, a4, a5, a6, a7, a8); break;
  case 1: rv = um2::gmsh::model::occ::addWedge(a0, a1, a2, a3, a4, a5, a6, a7); break;
  case 2: rv = um2::gmsh::model::occ::addWedge(a0, a1, a2, a3, a4, a5, a6); break;
  case 3: rv = um2::gmsh::model::occ::addWedge(a0, a1, a2, a3, a4, a5); break;
  }
  fwd::gotRet(rv);
}
static void t241(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<double>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<double>(r);
  auto a5 = fwd::gen<int>(r);
  auto a6 = fwd::gen<double>(r);
  auto a7 = fwd::gen<std::vector<double>>(r);
  fwd::expect("model::occ::addTorus");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  if (omit >= 3) fwd::want(static_cast<int>(-1)); else fwd::want(a5);
  if (omit >= 2) fwd::want(static_cast<double>(2*M_PI)); else fwd::want(a6);
  if (omit >= 1) fwd::want(static_cast<std::vector<double>>(std::vector<double>())); else fwd::want(a7);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::addTorus(a0, a1, a2, a3, a4, a5, a6, a7); break;
  case 1: rv = um2::gmsh::model::occ::addTorus(a0, a1, a2, a3, a4, a5, a6); break;
  case 2: rv = um2::gmsh::model::occ::addTorus(a0, a1, a2, a3, a4, a5); break;
  case 3: rv = um2::gmsh::model::occ::addTorus(a0, a1, a2, a3, a4); break;
  }
  fwd::gotRet(rv);
}
static void t242(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<int>>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<::gmsh::vectorpair>(r);
  auto a4 = fwd::gen<int>(r);
  fwd::expect("model::occ::addThickSolid");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a4);
  switch (omit) {
  default: um2::gmsh::model::occ::addThickSolid(a0, a1, a2, a3, a4); break;
  case 1: um2::gmsh::model::occ::addThickSolid(a0, a1, a2, a3); break;
  }
  fwd::got(a3);
}
static void t243(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<::gmsh::vectorpair>(r);
  auto a5 = fwd::gen<std::vector<int>>(r);
  auto a6 = fwd::gen<std::vector<double>>(r);
  auto a7 = fwd::gen<bool>(r);
  fwd::expect("model::occ::extrude");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  if (omit >= 3) fwd::want(static_cast<std::vector<int>>(std::vector<int>())); else fwd::want(a5);
  if (omit >= 2) fwd::want(static_cast<std::vector<double>>(std::vector<double>())); else fwd::want(a6);
  if (omit >= 1) fwd::want(static_cast<bool>(false)); else fwd::want(a7);
  switch (omit) {
  default: um2::gmsh::model::occ::extrude(a0, a1, a2, a3, a4, a5, a6, a7); break;
  case 1: um2::gmsh::model::occ::extrude(a0, a1, a2, a3, a4, a5, a6); break;
  case 2: um2::gmsh::model::occ::extrude(a0, a1, a2, a3, a4, a5); break;
  case 3: um2::gmsh::model::occ::extrude(a0, a1, a2, a3, a4); break;
  }
  fwd::got(a4);
}
static void t244(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<double>(r);
  auto a5 = fwd::gen<double>(r);
  auto a6 = fwd::gen<double>(r);
  auto a7 = fwd::gen<double>(r);
  auto a8 = fwd::gen<::gmsh::vectorpair>(r);
  auto a9 = fwd::gen<std::vector<int>>(r);
  auto a10 = fwd::gen<std::vector<double>>(r);
  auto a11 = fwd::gen<bool>(r);
  fwd::expect("model::occ::revolve");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  fwd::want(a5);
  fwd::want(a6);
  fwd::want(a7);
  if (omit >= 3) fwd::want(static_cast<std::vector<int>>(std::vector<int>())); else fwd::want(a9);
  if (omit >= 2) fwd::want(static_cast<std::vector<double>>(std::vector<double>())); else fwd::want(a10);
  if (omit >= 1) fwd::want(static_cast<bool>(false)); else fwd::want(a11);
  switch (omit) {
  default: um2::gmsh::model::occ::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11); break;
  case 1: um2::gmsh::model::occ::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10); break;
  case 2: um2::gmsh::model::occ::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); break;
  case 3: um2::gmsh::model::occ::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8); break;
  }
  fwd::got(a8);
}
static void t245(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<::gmsh::vectorpair>(r);
  auto a3 = fwd::gen<std::string>(r);
  fwd::expect("model::occ::addPipe");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<std::string>("")); else fwd::want(a3);
  switch (omit) {
  default: um2::gmsh::model::occ::addPipe(a0, a1, a2, a3); break;
  case 1: um2::gmsh::model::occ::addPipe(a0, a1, a2); break;
  }
  fwd::got(a2);
}
static void t246(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  auto a1 = fwd::gen<std::vector<int>>(r);
  auto a2 = fwd::gen<std::vector<double>>(r);
  auto a3 = fwd::gen<::gmsh::vectorpair>(r);
  auto a4 = fwd::gen<bool>(r);
  fwd::expect("model::occ::fillet");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  if (omit >= 1) fwd::want(static_cast<bool>(true)); else fwd::want(a4);
  switch (omit) {
  default: um2::gmsh::model::occ::fillet(a0, a1, a2, a3, a4); break;
  case 1: um2::gmsh::model::occ::fillet(a0, a1, a2, a3); break;
  }
  fwd::got(a3);
}
static void t247(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  auto a1 = fwd::gen<std::vector<int>>(r);
  auto a2 = fwd::gen<std::vector<int>>(r);
  auto a3 = fwd::gen<std::vector<double>>(r);
  auto a4 = fwd::gen<::gmsh::vectorpair>(r);
  auto a5 = fwd::gen<bool>(r);
  fwd::expect("model::occ::chamfer");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  if (omit >= 1) fwd::want(static_cast<bool>(true)); else fwd::want(a5);
  switch (omit) {
  default: um2::gmsh::model::occ::chamfer(a0, a1, a2, a3, a4, a5); break;
  case 1: um2::gmsh::model::occ::chamfer(a0, a1, a2, a3, a4); break;
  }
  fwd::got(a4);
}
static void t248(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<::gmsh::vectorpair>(r);
  auto a2 = fwd::gen<::gmsh::vectorpair>(r);
  auto a3 = fwd::gen<std::vector<::gmsh::vectorpair>>(r);
  auto a4 = fwd::gen<int>(r);
  auto a5 = fwd::gen<bool>(r);
  auto a6 = fwd::gen<bool>(r);
  fwd::expect("model::occ::fuse");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 3) fwd::want(static_cast<int>(-1)); else fwd::want(a4);
  if (omit >= 2) fwd::want(static_cast<bool>(true)); else fwd::want(a5);
  if (omit >= 1) fwd::want(static_cast<bool>(true)); else fwd::want(a6);
  switch (omit) {
  default: um2::gmsh::model::occ::fuse(a0, a1, a2, a3, a4, a5, a6); break;
  case 1: um2::gmsh::model::occ::fuse(a0, a1, a2, a3, a4, a5); break;
  case 2: um2::gmsh::model::occ::fuse(a0, a1, a2, a3, a4); break;
  case 3: um2::gmsh::model::occ::fuse(a0, a1, a2, a3); break;
  }
  fwd::got(a2);
  fwd::got(a3);
}
static void t249(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<::gmsh::vectorpair>(r);
  auto a2 = fwd::gen<::gmsh::vectorpair>(r);
  auto a3 = fwd::gen<std::vector<::gmsh::vectorpair>>(r);
  auto a4 = fwd::gen<int>(r);
  auto a5 = fwd::gen<bool>(r);
  auto a6 = fwd::gen<bool>(r);
  fwd::expect("model::occ::intersect");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 3) fwd::want(static_cast<int>(-1)); else fwd::want(a4);
  if (omit >= 2) fwd::want(static_cast<bool>(true)); else fwd::want(a5);
  if (omit >= 1) fwd::want(static_cast<bool>(true)); else fwd::want(a6);
  switch (omit) {
  default: um2::gmsh::model::occ::intersect(a0, a1, a2, a3, a4, a5, a6); break;
  case 1: um2::gmsh::model::occ::intersect(a0, a1, a2, a3, a4, a5); break;
  case 2: um2::gmsh::model::occ::intersect(a0, a1, a2, a3, a4); break;
  case 3: um2::gmsh::model::occ::intersect(a0, a1, a2, a3); break;
  }
  fwd::got(a2);
  fwd::got(a3);
}
static void t250(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<::gmsh::vectorpair>(r);
  auto a2 = fwd::gen<::gmsh::vectorpair>(r);
  auto a3 = fwd::gen<std::vector<::gmsh::vectorpair>>(r);
  auto a4 = fwd::gen<int>(r);
  auto a5 = fwd::gen<bool>(r);
  auto a6 = fwd::gen<bool>(r);
  fwd::expect("model::occ::cut");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 3) fwd::want(static_cast<int>(-1)); else fwd::want(a4);
  if (omit >= 2) fwd::want(static_cast<bool>(true)); else fwd::want(a5);
  if (omit >= 1) fwd::want(static_cast<bool>(true)); else fwd::want(a6);
  switch (omit) {
  default: um2::gmsh::model::occ::cut(a0, a1, a2, a3, a4, a5, a6); break;
  case 1: um2::gmsh::model::occ::cut(a0, a1, a2, a3, a4, a5); break;
  case 2: um2::gmsh::model::occ::cut(a0, a1, a2, a3, a4); break;
  case 3: um2::gmsh::model::occ::cut(a0, a1, a2, a3); break;
  }
  fwd::got(a2);
  fwd::got(a3);
}
static void t251(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<::gmsh::vectorpair>(r);
  auto a2 = fwd::gen<::gmsh::vectorpair>(r);
  auto a3 = fwd::gen<std::vector<::gmsh::vectorpair>>(r);
  auto a4 = fwd::gen<int>(r);
  auto a5 = fwd::gen<bool>(r);
  auto a6 = fwd::gen<bool>(r);
  fwd::expect("model::occ::fragment");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 3) fwd::want(static_cast<int>(-1)); else fwd::want(a4);
  if (omit >= 2) fwd::want(static_cast<bool>(true)); else fwd::want(a5);
  if (omit >= 1) fwd::want(static_cast<bool>(true)); else fwd::want(a6);
  switch (omit) {
  default: um2::gmsh::model::occ::fragment(a0, a1, a2, a3, a4, a5, a6); break;
  case 1: um2::gmsh::model::occ::fragment(a0, a1, a2, a3, a4, a5); break;
  case 2: um2::gmsh::model::occ::fragment(a0, a1, a2, a3, a4); break;
  case 3: um2::gmsh::model::occ::fragment(a0, a1, a2, a3); break;
  }
  fwd::got(a2);
  fwd::got(a3);
}
static void t252(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  fwd::expect("model::occ::translate");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  switch (omit) {
  default: um2::gmsh::model::occ::translate(a0, a1, a2, a3); break;
  }
}
static void t253(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<double>(r);
  auto a5 = fwd::gen<double>(r);
  auto a6 = fwd::gen<double>(r);
  auto a7 = fwd::gen<double>(r);
  fwd::expect("model::occ::rotate");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  fwd::want(a5);
  fwd::want(a6);
  fwd::want(a7);
  switch (omit) {
  default: um2::gmsh::model::occ::rotate(a0, a1, a2, a3, a4, a5, a6, a7); break;
  }
}
static void t254(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<double>(r);
  auto a5 = fwd::gen<double>(r);
  auto a6 = fwd::gen<double>(r);
  fwd::expect("model::occ::dilate");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  fwd::want(a5);
  fwd::want(a6);
  switch (omit) {
  default: um2::gmsh::model::occ::dilate(a0, a1, a2, a3, a4, a5, a6); break;
  }
}
static void t255(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<double>(r);
  fwd::expect("model::occ::mirror");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  switch (omit) {
  default: um2::gmsh::model::occ::mirror(a0, a1, a2, a3, a4); break;
  }
}
static void t256(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<double>(r);
  fwd::expect("model::occ::symmetrize");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  switch (omit) {
  default: um2::gmsh::model::occ::symmetrize(a0, a1, a2, a3, a4); break;
  }
}
static void t257(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<std::vector<double>>(r);
  fwd::expect("model::occ::affineTransform");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::occ::affineTransform(a0, a1); break;
  }
}
static void t258(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<::gmsh::vectorpair>(r);
  fwd::expect("model::occ::copy");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::occ::copy(a0, a1); break;
  }
  fwd::got(a1);
}
static void t259(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<bool>(r);
  fwd::expect("model::occ::remove");
  fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<bool>(false)); else fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::occ::remove(a0, a1); break;
  case 1: um2::gmsh::model::occ::remove(a0); break;
  }
}
static void t260(vh::Rng & r, int omit)
{
  fwd::expect("model::occ::removeAllDuplicates");
  switch (omit) {
  default: um2::gmsh::model::occ::removeAllDuplicates(); break;
  }
}
static void t261(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<::gmsh::vectorpair>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<bool>(r);
  auto a4 = fwd::gen<bool>(r);
  auto a5 = fwd::gen<bool>(r);
  auto a6 = fwd::gen<bool>(r);
  auto a7 = fwd::gen<bool>(r);
  fwd::expect("model::occ::healShapes");
  if (omit >= 7) fwd::want(static_cast<::gmsh::vectorpair>(::gmsh::vectorpair())); else fwd::want(a1);
  if (omit >= 6) fwd::want(static_cast<double>(1e-8)); else fwd::want(a2);
  if (omit >= 5) fwd::want(static_cast<bool>(true)); else fwd::want(a3);
  if (omit >= 4) fwd::want(static_cast<bool>(true)); else fwd::want(a4);
  if (omit >= 3) fwd::want(static_cast<bool>(true)); else fwd::want(a5);
  if (omit >= 2) fwd::want(static_cast<bool>(true)); else fwd::want(a6);
  if (omit >= 1) fwd::want(static_cast<bool>(true)); else fwd::want(a7);
  switch (omit) {
  default: um2::gmsh::model::occ::healShapes(a0, a1, a2, a3, a4, a5, a6, a7); break;
  case 1: um2::gmsh::model::occ::healShapes(a0, a1, a2, a3, a4, a5, a6); break;
  case 2: um2::gmsh::model::occ::healShapes(a0, a1, a2, a3, a4, a5); break;
  case 3: um2::gmsh::model::occ::healShapes(a0, a1, a2, a3, a4); break;
  case 4: um2::gmsh::model::occ::healShapes(a0, a1, a2, a3); break;
  case 5: um2::gmsh::model::occ::healShapes(a0, a1, a2); break;
  case 6: um2::gmsh::model::occ::healShapes(a0, a1); break;
  case 7: um2::gmsh::model::occ::healShapes(a0); break;
  }
  fwd::got(a0);
}
static void t262(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  fwd::expect("model::occ::convertToNURBS");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::occ::convertToNURBS(a0); break;
  }
}
static void t263(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<::gmsh::vectorpair>(r);
  auto a2 = fwd::gen<bool>(r);
  auto a3 = fwd::gen<std::string>(r);
  fwd::expect("model::occ::importShapes");
  fwd::want(a0);
  if (omit >= 2) fwd::want(static_cast<bool>(true)); else fwd::want(a2);
  if (omit >= 1) fwd::want(static_cast<std::string>("")); else fwd::want(a3);
  switch (omit) {
  default: um2::gmsh::model::occ::importShapes(a0, a1, a2, a3); break;
  case 1: um2::gmsh::model::occ::importShapes(a0, a1, a2); break;
  case 2: um2::gmsh::model::occ::importShapes(a0, a1); break;
  }
  fwd::got(a1);
}
static void t264(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<void *>(r);
  auto a1 = fwd::gen<::gmsh::vectorpair>(r);
  auto a2 = fwd::gen<bool>(r);
  fwd::expect("model::occ::importShapesNativePointer");
  fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<bool>(true)); else fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::model::occ::importShapesNativePointer(a0, a1, a2); break;
  case 1: um2::gmsh::model::occ::importShapesNativePointer(a0, a1); break;
  }
  fwd::got(a1);
}
static void t265(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<int>(r);
  fwd::expect("model::occ::getEntities");
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::occ::getEntities(a0, a1); break;
  case 1: um2::gmsh::model::occ::getEntities(a0); break;
  }
  fwd::got(a0);
}
static void t266(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<double>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<double>(r);
  auto a5 = fwd::gen<double>(r);
  auto a6 = fwd::gen<::gmsh::vectorpair>(r);
  auto a7 = fwd::gen<int>(r);
  fwd::expect("model::occ::getEntitiesInBoundingBox");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  fwd::want(a5);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a7);
  switch (omit) {
  default: um2::gmsh::model::occ::getEntitiesInBoundingBox(a0, a1, a2, a3, a4, a5, a6, a7); break;
  case 1: um2::gmsh::model::occ::getEntitiesInBoundingBox(a0, a1, a2, a3, a4, a5, a6); break;
  }
  fwd::got(a6);
}
static void t267(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<double>(r);
  auto a5 = fwd::gen<double>(r);
  auto a6 = fwd::gen<double>(r);
  auto a7 = fwd::gen<double>(r);
  fwd::expect("model::occ::getBoundingBox");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::occ::getBoundingBox(a0, a1, a2, a3, a4, a5, a6, a7); break;
  }
  fwd::got(a2);
  fwd::got(a3);
  fwd::got(a4);
  fwd::got(a5);
  fwd::got(a6);
  fwd::got(a7);
}
static void t268(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<int>>(r);
  auto a2 = fwd::gen<std::vector<std::vector<int>>>(r);
  fwd::expect("model::occ::getCurveLoops");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::occ::getCurveLoops(a0, a1, a2); break;
  }
  fwd::got(a1);
  fwd::got(a2);
}
static void t269(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<int>>(r);
  auto a2 = fwd::gen<std::vector<std::vector<int>>>(r);
  fwd::expect("model::occ::getSurfaceLoops");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::model::occ::getSurfaceLoops(a0, a1, a2); break;
  }
  fwd::got(a1);
  fwd::got(a2);
}
static void t270(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<double>(r);
  fwd::expect("model::occ::getMass");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::occ::getMass(a0, a1, a2); break;
  }
  fwd::got(a2);
}
static void t271(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<double>(r);
  fwd::expect("model::occ::getCenterOfMass");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::occ::getCenterOfMass(a0, a1, a2, a3, a4); break;
  }
  fwd::got(a2);
  fwd::got(a3);
  fwd::got(a4);
}
static void t272(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::vector<double>>(r);
  fwd::expect("model::occ::getMatrixOfInertia");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::occ::getMatrixOfInertia(a0, a1, a2); break;
  }
  fwd::got(a2);
}
static void t273(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  fwd::expect("model::occ::getMaxTag");
  fwd::want(a0);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::model::occ::getMaxTag(a0); break;
  }
  fwd::gotRet(rv);
}
static void t274(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  fwd::expect("model::occ::setMaxTag");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::occ::setMaxTag(a0, a1); break;
  }
}
static void t275(vh::Rng & r, int omit)
{
  fwd::expect("model::occ::synchronize");
  switch (omit) {
  default: um2::gmsh::model::occ::synchronize(); break;
  }
}
static void t276(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<double>(r);
  fwd::expect("model::occ::mesh::setSize");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::model::occ::mesh::setSize(a0, a1); break;
  }
}
static void t277(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<int>(r);
  fwd::expect("view::add");
  fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::view::add(a0, a1); break;
  case 1: rv = um2::gmsh::view::add(a0); break;
  }
  fwd::gotRet(rv);
}
static void t278(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  fwd::expect("view::remove");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::view::remove(a0); break;
  }
}
static void t279(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  fwd::expect("view::getIndex");
  fwd::want(a0);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::view::getIndex(a0); break;
  }
  fwd::gotRet(rv);
}
static void t280(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  fwd::expect("view::getTags");
  switch (omit) {
  default: um2::gmsh::view::getTags(a0); break;
  }
  fwd::got(a0);
}
static void t281(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::string>(r);
  auto a3 = fwd::gen<std::string>(r);
  auto a4 = fwd::gen<std::vector<std::size_t>>(r);
  auto a5 = fwd::gen<std::vector<std::vector<double>>>(r);
  auto a6 = fwd::gen<double>(r);
  auto a7 = fwd::gen<int>(r);
  auto a8 = fwd::gen<int>(r);
  fwd::expect("view::addModelData");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  fwd::want(a5);
  if (omit >= 3) fwd::want(static_cast<double>(0.)); else fwd::want(a6);
  if (omit >= 2) fwd::want(static_cast<int>(-1)); else fwd::want(a7);
  if (omit >= 1) fwd::want(static_cast<int>(0)); else fwd::want(a8);
  switch (omit) {
  default: um2::gmsh::view::addModelData(a0, a1, a2, a3, a4, a5, a6, a7, a8); break;
  case 1: um2::gmsh::view::addModelData(a0, a1, a2, a3, a4, a5, a6, a7); break;
  case 2: um2::gmsh::view::addModelData(a0, a1, a2, a3, a4, a5, a6); break;
  case 3: um2::gmsh::view::addModelData(a0, a1, a2, a3, a4, a5); break;
  }
}
static void t282(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::string>(r);
  auto a3 = fwd::gen<std::string>(r);
  auto a4 = fwd::gen<std::vector<std::size_t>>(r);
  auto a5 = fwd::gen<std::vector<double>>(r);
  auto a6 = fwd::gen<double>(r);
  auto a7 = fwd::gen<int>(r);
  auto a8 = fwd::gen<int>(r);
  fwd::expect("view::addHomogeneousModelData");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  fwd::want(a5);
  if (omit >= 3) fwd::want(static_cast<double>(0.)); else fwd::want(a6);
  if (omit >= 2) fwd::want(static_cast<int>(-1)); else fwd::want(a7);
  if (omit >= 1) fwd::want(static_cast<int>(0)); else fwd::want(a8);
  switch (omit) {
  default: um2::gmsh::view::addHomogeneousModelData(a0, a1, a2, a3, a4, a5, a6, a7, a8); break;
  case 1: um2::gmsh::view::addHomogeneousModelData(a0, a1, a2, a3, a4, a5, a6, a7); break;
  case 2: um2::gmsh::view::addHomogeneousModelData(a0, a1, a2, a3, a4, a5, a6); break;
  case 3: um2::gmsh::view::addHomogeneousModelData(a0, a1, a2, a3, a4, a5); break;
  }
}
static void t283(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::string>(r);
  auto a3 = fwd::gen<std::vector<std::size_t>>(r);
  auto a4 = fwd::gen<std::vector<std::vector<double>>>(r);
  auto a5 = fwd::gen<double>(r);
  auto a6 = fwd::gen<int>(r);
  fwd::expect("view::getModelData");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::view::getModelData(a0, a1, a2, a3, a4, a5, a6); break;
  }
  fwd::got(a2);
  fwd::got(a3);
  fwd::got(a4);
  fwd::got(a5);
  fwd::got(a6);
}
static void t284(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::string>(r);
  auto a3 = fwd::gen<std::vector<std::size_t>>(r);
  auto a4 = fwd::gen<std::vector<double>>(r);
  auto a5 = fwd::gen<double>(r);
  auto a6 = fwd::gen<int>(r);
  fwd::expect("view::getHomogeneousModelData");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::view::getHomogeneousModelData(a0, a1, a2, a3, a4, a5, a6); break;
  }
  fwd::got(a2);
  fwd::got(a3);
  fwd::got(a4);
  fwd::got(a5);
  fwd::got(a6);
}
static void t285(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<int>(r);
  auto a3 = fwd::gen<std::vector<double>>(r);
  fwd::expect("view::addListData");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  switch (omit) {
  default: um2::gmsh::view::addListData(a0, a1, a2, a3); break;
  }
}
static void t286(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<std::string>>(r);
  auto a2 = fwd::gen<std::vector<int>>(r);
  auto a3 = fwd::gen<std::vector<std::vector<double>>>(r);
  fwd::expect("view::getListData");
  fwd::want(a0);
  fwd::want(bool(false));
  switch (omit) {
  default: um2::gmsh::view::getListData(a0, a1, a2, a3); break;
  }
  fwd::got(a1);
  fwd::got(a2);
  fwd::got(a3);
}
static void t287(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::vector<double>>(r);
  auto a2 = fwd::gen<std::vector<std::string>>(r);
  auto a3 = fwd::gen<std::vector<std::string>>(r);
  fwd::expect("view::addListDataString");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  if (omit >= 1) fwd::want(static_cast<std::vector<std::string>>(std::vector<std::string>())); else fwd::want(a3);
  switch (omit) {
  default: um2::gmsh::view::addListDataString(a0, a1, a2, a3); break;
  case 1: um2::gmsh::view::addListDataString(a0, a1, a2); break;
  }
}
static void t288(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<std::vector<double>>(r);
  auto a3 = fwd::gen<std::vector<std::string>>(r);
  auto a4 = fwd::gen<std::vector<std::string>>(r);
  fwd::expect("view::getListDataStrings");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::view::getListDataStrings(a0, a1, a2, a3, a4); break;
  }
  fwd::got(a2);
  fwd::got(a3);
  fwd::got(a4);
}
static void t289(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<int>(r);
  auto a3 = fwd::gen<std::vector<double>>(r);
  auto a4 = fwd::gen<std::vector<double>>(r);
  auto a5 = fwd::gen<int>(r);
  auto a6 = fwd::gen<std::vector<double>>(r);
  auto a7 = fwd::gen<std::vector<double>>(r);
  fwd::expect("view::setInterpolationMatrices");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  if (omit >= 3) fwd::want(static_cast<int>(0)); else fwd::want(a5);
  if (omit >= 2) fwd::want(static_cast<std::vector<double>>(std::vector<double>())); else fwd::want(a6);
  if (omit >= 1) fwd::want(static_cast<std::vector<double>>(std::vector<double>())); else fwd::want(a7);
  switch (omit) {
  default: um2::gmsh::view::setInterpolationMatrices(a0, a1, a2, a3, a4, a5, a6, a7); break;
  case 1: um2::gmsh::view::setInterpolationMatrices(a0, a1, a2, a3, a4, a5, a6); break;
  case 2: um2::gmsh::view::setInterpolationMatrices(a0, a1, a2, a3, a4, a5); break;
  case 3: um2::gmsh::view::setInterpolationMatrices(a0, a1, a2, a3, a4); break;
  }
}
static void t290(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<bool>(r);
  auto a2 = fwd::gen<int>(r);
  fwd::expect("view::addAlias");
  fwd::want(a0);
  if (omit >= 2) fwd::want(static_cast<bool>(false)); else fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a2);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::view::addAlias(a0, a1, a2); break;
  case 1: rv = um2::gmsh::view::addAlias(a0, a1); break;
  case 2: rv = um2::gmsh::view::addAlias(a0); break;
  }
  fwd::gotRet(rv);
}
static void t291(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<bool>(r);
  auto a3 = fwd::gen<bool>(r);
  fwd::expect("view::combine");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 2) fwd::want(static_cast<bool>(true)); else fwd::want(a2);
  if (omit >= 1) fwd::want(static_cast<bool>(true)); else fwd::want(a3);
  switch (omit) {
  default: um2::gmsh::view::combine(a0, a1, a2, a3); break;
  case 1: um2::gmsh::view::combine(a0, a1, a2); break;
  case 2: um2::gmsh::view::combine(a0, a1); break;
  }
}
static void t292(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<double>(r);
  auto a2 = fwd::gen<double>(r);
  auto a3 = fwd::gen<double>(r);
  auto a4 = fwd::gen<std::vector<double>>(r);
  auto a5 = fwd::gen<double>(r);
  auto a6 = fwd::gen<int>(r);
  auto a7 = fwd::gen<int>(r);
  auto a8 = fwd::gen<bool>(r);
  auto a9 = fwd::gen<double>(r);
  auto a10 = fwd::gen<std::vector<double>>(r);
  auto a11 = fwd::gen<std::vector<double>>(r);
  auto a12 = fwd::gen<std::vector<double>>(r);
  auto a13 = fwd::gen<int>(r);
  fwd::expect("view::probe");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  if (omit >= 8) fwd::want(static_cast<int>(-1)); else fwd::want(a6);
  if (omit >= 7) fwd::want(static_cast<int>(-1)); else fwd::want(a7);
  if (omit >= 6) fwd::want(static_cast<bool>(false)); else fwd::want(a8);
  if (omit >= 5) fwd::want(static_cast<double>(0.)); else fwd::want(a9);
  if (omit >= 4) fwd::want(static_cast<std::vector<double>>(std::vector<double>())); else fwd::want(a10);
  if (omit >= 3) fwd::want(static_cast<std::vector<double>>(std::vector<double>())); else fwd::want(a11);
  if (omit >= 2) fwd::want(static_cast<std::vector<double>>(std::vector<double>())); else fwd::want(a12);
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a13);
  switch (omit) {
  default: um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13); break;
  case 1: um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12); break;
  case 2: um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11); break;
  case 3: um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10); break;
  case 4: um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); break;
  case 5: um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8); break;
  case 6: um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7); break;
  case 7: um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6); break;
  case 8: um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5); break;
  }
  fwd::got(a4);
  fwd::got(a5);
}
static void t293(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<bool>(r);
  fwd::expect("view::write");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<bool>(false)); else fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::view::write(a0, a1, a2); break;
  case 1: um2::gmsh::view::write(a0, a1); break;
  }
}
static void t294(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  auto a2 = fwd::gen<int>(r);
  fwd::expect("view::setVisibilityPerWindow");
  fwd::want(a0);
  fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<int>(0)); else fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::view::setVisibilityPerWindow(a0, a1, a2); break;
  case 1: um2::gmsh::view::setVisibilityPerWindow(a0, a1); break;
  }
}
static void t295(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<double>(r);
  fwd::expect("view::option::setNumber");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::view::option::setNumber(a0, a1, a2); break;
  }
}
static void t296(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<double>(r);
  fwd::expect("view::option::getNumber");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::view::option::getNumber(a0, a1, a2); break;
  }
  fwd::got(a2);
}
static void t297(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<std::string>(r);
  fwd::expect("view::option::setString");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::view::option::setString(a0, a1, a2); break;
  }
}
static void t298(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<std::string>(r);
  fwd::expect("view::option::getString");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::view::option::getString(a0, a1, a2); break;
  }
  fwd::got(a2);
}
static void t299(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<int>(r);
  auto a3 = fwd::gen<int>(r);
  auto a4 = fwd::gen<int>(r);
  auto a5 = fwd::gen<int>(r);
  fwd::expect("view::option::setColor");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  fwd::want(a3);
  fwd::want(a4);
  if (omit >= 1) fwd::want(static_cast<int>(255)); else fwd::want(a5);
  switch (omit) {
  default: um2::gmsh::view::option::setColor(a0, a1, a2, a3, a4, a5); break;
  case 1: um2::gmsh::view::option::setColor(a0, a1, a2, a3, a4); break;
  }
}
static void t300(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<int>(r);
  auto a3 = fwd::gen<int>(r);
  auto a4 = fwd::gen<int>(r);
  auto a5 = fwd::gen<int>(r);
  fwd::expect("view::option::getColor");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::view::option::getColor(a0, a1, a2, a3, a4, a5); break;
  }
  fwd::got(a2);
  fwd::got(a3);
  fwd::got(a4);
  fwd::got(a5);
}
static void t301(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  fwd::expect("view::option::copy");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::view::option::copy(a0, a1); break;
  }
}
static void t302(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<double>(r);
  fwd::expect("plugin::setNumber");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::plugin::setNumber(a0, a1, a2); break;
  }
}
static void t303(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<std::string>(r);
  fwd::expect("plugin::setString");
  fwd::want(a0);
  fwd::want(a1);
  fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::plugin::setString(a0, a1, a2); break;
  }
}
static void t304(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  fwd::expect("plugin::run");
  fwd::want(a0);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::plugin::run(a0); break;
  }
  fwd::gotRet(rv);
}
static void t305(vh::Rng & r, int omit)
{
  fwd::expect("graphics::draw");
  switch (omit) {
  default: um2::gmsh::graphics::draw(); break;
  }
}
static void t306(vh::Rng & r, int omit)
{
  fwd::expect("fltk::initialize");
  switch (omit) {
  default: um2::gmsh::fltk::initialize(); break;
  }
}
static void t307(vh::Rng & r, int omit)
{
  fwd::expect("fltk::finalize");
  switch (omit) {
  default: um2::gmsh::fltk::finalize(); break;
  }
}
static void t308(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<double>(r);
  fwd::expect("fltk::wait");
  if (omit >= 1) fwd::want(static_cast<double>(-1.)); else fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::fltk::wait(a0); break;
  case 1: um2::gmsh::fltk::wait(); break;
  }
}
static void t309(vh::Rng & r, int omit)
{
  fwd::expect("fltk::update");
  switch (omit) {
  default: um2::gmsh::fltk::update(); break;
  }
}
static void t310(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  fwd::expect("fltk::awake");
  if (omit >= 1) fwd::want(static_cast<std::string>("")); else fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::fltk::awake(a0); break;
  case 1: um2::gmsh::fltk::awake(); break;
  }
}
static void t311(vh::Rng & r, int omit)
{
  fwd::expect("fltk::lock");
  switch (omit) {
  default: um2::gmsh::fltk::lock(); break;
  }
}
static void t312(vh::Rng & r, int omit)
{
  fwd::expect("fltk::unlock");
  switch (omit) {
  default: um2::gmsh::fltk::unlock(); break;
  }
}
static void t313(vh::Rng & r, int omit)
{
  fwd::expect("fltk::run");
  switch (omit) {
  default: um2::gmsh::fltk::run(); break;
  }
}
static void t314(vh::Rng & r, int omit)
{
  fwd::expect("fltk::isAvailable");
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::fltk::isAvailable(); break;
  }
  fwd::gotRet(rv);
}
static void t315(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<::gmsh::vectorpair>(r);
  auto a1 = fwd::gen<int>(r);
  fwd::expect("fltk::selectEntities");
  if (omit >= 1) fwd::want(static_cast<int>(-1)); else fwd::want(a1);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::fltk::selectEntities(a0, a1); break;
  case 1: rv = um2::gmsh::fltk::selectEntities(a0); break;
  }
  fwd::got(a0);
  fwd::gotRet(rv);
}
static void t316(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<std::size_t>>(r);
  fwd::expect("fltk::selectElements");
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::fltk::selectElements(a0); break;
  }
  fwd::got(a0);
  fwd::gotRet(rv);
}
static void t317(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<int>>(r);
  fwd::expect("fltk::selectViews");
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::fltk::selectViews(a0); break;
  }
  fwd::got(a0);
  fwd::gotRet(rv);
}
static void t318(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<double>(r);
  fwd::expect("fltk::splitCurrentWindow");
  if (omit >= 2) fwd::want(static_cast<std::string>("v")); else fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<double>(0.5)); else fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::fltk::splitCurrentWindow(a0, a1); break;
  case 1: um2::gmsh::fltk::splitCurrentWindow(a0); break;
  case 2: um2::gmsh::fltk::splitCurrentWindow(); break;
  }
}
static void t319(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  fwd::expect("fltk::setCurrentWindow");
  if (omit >= 1) fwd::want(static_cast<int>(0)); else fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::fltk::setCurrentWindow(a0); break;
  case 1: um2::gmsh::fltk::setCurrentWindow(); break;
  }
}
static void t320(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<bool>(r);
  fwd::expect("fltk::setStatusMessage");
  fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<bool>(false)); else fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::fltk::setStatusMessage(a0, a1); break;
  case 1: um2::gmsh::fltk::setStatusMessage(a0); break;
  }
}
static void t321(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<int>(r);
  auto a1 = fwd::gen<int>(r);
  fwd::expect("fltk::showContextWindow");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::fltk::showContextWindow(a0, a1); break;
  }
}
static void t322(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  fwd::expect("fltk::openTreeItem");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::fltk::openTreeItem(a0); break;
  }
}
static void t323(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  fwd::expect("fltk::closeTreeItem");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::fltk::closeTreeItem(a0); break;
  }
}
static void t324(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<std::string>>(r);
  auto a1 = fwd::gen<std::string>(r);
  fwd::expect("parser::getNames");
  if (omit >= 1) fwd::want(static_cast<std::string>("")); else fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::parser::getNames(a0, a1); break;
  case 1: um2::gmsh::parser::getNames(a0); break;
  }
  fwd::got(a0);
}
static void t325(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<std::vector<double>>(r);
  fwd::expect("parser::setNumber");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::parser::setNumber(a0, a1); break;
  }
}
static void t326(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<std::vector<std::string>>(r);
  fwd::expect("parser::setString");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::parser::setString(a0, a1); break;
  }
}
static void t327(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<std::vector<double>>(r);
  fwd::expect("parser::getNumber");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::parser::getNumber(a0, a1); break;
  }
  fwd::got(a1);
}
static void t328(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<std::vector<std::string>>(r);
  fwd::expect("parser::getString");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::parser::getString(a0, a1); break;
  }
  fwd::got(a1);
}
static void t329(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  fwd::expect("parser::clear");
  if (omit >= 1) fwd::want(static_cast<std::string>("")); else fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::parser::clear(a0); break;
  case 1: um2::gmsh::parser::clear(); break;
  }
}
static void t330(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  fwd::expect("parser::parse");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::parser::parse(a0); break;
  }
}
static void t331(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<std::string>(r);
  fwd::expect("onelab::set");
  fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<std::string>("json")); else fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::onelab::set(a0, a1); break;
  case 1: um2::gmsh::onelab::set(a0); break;
  }
}
static void t332(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<std::string>(r);
  auto a2 = fwd::gen<std::string>(r);
  fwd::expect("onelab::get");
  if (omit >= 2) fwd::want(static_cast<std::string>("")); else fwd::want(a1);
  if (omit >= 1) fwd::want(static_cast<std::string>("json")); else fwd::want(a2);
  switch (omit) {
  default: um2::gmsh::onelab::get(a0, a1, a2); break;
  case 1: um2::gmsh::onelab::get(a0, a1); break;
  case 2: um2::gmsh::onelab::get(a0); break;
  }
  fwd::got(a0);
}
static void t333(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<std::string>>(r);
  auto a1 = fwd::gen<std::string>(r);
  fwd::expect("onelab::getNames");
  if (omit >= 1) fwd::want(static_cast<std::string>("")); else fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::onelab::getNames(a0, a1); break;
  case 1: um2::gmsh::onelab::getNames(a0); break;
  }
  fwd::got(a0);
}
static void t334(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<std::vector<double>>(r);
  fwd::expect("onelab::setNumber");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::onelab::setNumber(a0, a1); break;
  }
}
static void t335(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<std::vector<std::string>>(r);
  fwd::expect("onelab::setString");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::onelab::setString(a0, a1); break;
  }
}
static void t336(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<std::vector<double>>(r);
  fwd::expect("onelab::getNumber");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::onelab::getNumber(a0, a1); break;
  }
  fwd::got(a1);
}
static void t337(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<std::vector<std::string>>(r);
  fwd::expect("onelab::getString");
  fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::onelab::getString(a0, a1); break;
  }
  fwd::got(a1);
}
static void t338(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  fwd::expect("onelab::getChanged");
  fwd::want(a0);
  int rv{};
  switch (omit) {
  default: rv = um2::gmsh::onelab::getChanged(a0); break;
  }
  fwd::gotRet(rv);
}
static void t339(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<int>(r);
  fwd::expect("onelab::setChanged");
  fwd::want(a0);
  fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::onelab::setChanged(a0, a1); break;
  }
}
static void t340(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  fwd::expect("onelab::clear");
  if (omit >= 1) fwd::want(static_cast<std::string>("")); else fwd::want(a0);
  switch (omit) {
  default: um2::gmsh::onelab::clear(a0); break;
  case 1: um2::gmsh::onelab::clear(); break;
  }
}
static void t341(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<std::string>(r);
  fwd::expect("onelab::run");
  if (omit >= 2) fwd::want(static_cast<std::string>("")); else fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<std::string>("")); else fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::onelab::run(a0, a1); break;
  case 1: um2::gmsh::onelab::run(a0); break;
  case 2: um2::gmsh::onelab::run(); break;
  }
}
static void t342(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  auto a1 = fwd::gen<std::string>(r);
  fwd::expect("logger::write");
  fwd::want(a0);
  if (omit >= 1) fwd::want(static_cast<std::string>("info")); else fwd::want(a1);
  switch (omit) {
  default: um2::gmsh::logger::write(a0, a1); break;
  case 1: um2::gmsh::logger::write(a0); break;
  }
}
static void t343(vh::Rng & r, int omit)
{
  fwd::expect("logger::start");
  switch (omit) {
  default: um2::gmsh::logger::start(); break;
  }
}
static void t344(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::vector<std::string>>(r);
  fwd::expect("logger::get");
  switch (omit) {
  default: um2::gmsh::logger::get(a0); break;
  }
  fwd::got(a0);
}
static void t345(vh::Rng & r, int omit)
{
  fwd::expect("logger::stop");
  switch (omit) {
  default: um2::gmsh::logger::stop(); break;
  }
}
static void t346(vh::Rng & r, int omit)
{
  fwd::expect("logger::getWallTime");
  double rv{};
  switch (omit) {
  default: rv = um2::gmsh::logger::getWallTime(); break;
  }
  fwd::gotRet(rv);
}
static void t347(vh::Rng & r, int omit)
{
  fwd::expect("logger::getCpuTime");
  double rv{};
  switch (omit) {
  default: rv = um2::gmsh::logger::getCpuTime(); break;
  }
  fwd::gotRet(rv);
}
static void t348(vh::Rng & r, int omit)
{
  auto a0 = fwd::gen<std::string>(r);
  fwd::expect("logger::getLastError");
  switch (omit) {
  default: um2::gmsh::logger::getLastError(a0); break;
  }
  fwd::got(a0);
}
static Wrapped const table[] = {
  {"initialize", t0, 4},
  {"isInitialized", t1, 0},
  {"finalize", t2, 0},
  {"open", t3, 0},
  {"merge", t4, 0},
  {"write", t5, 0},
  {"clear", t6, 0},
  {"option::setNumber", t7, 0},
  {"option::getNumber", t8, 0},
  {"option::setString", t9, 0},
  {"option::getString", t10, 0},
  {"option::setColor", t11, 1},
  {"option::getColor", t12, 0},
  {"model::add", t13, 0},
  {"model::remove", t14, 0},
  {"model::list", t15, 0},
  {"model::getCurrent", t16, 0},
  {"model::setCurrent", t17, 0},
  {"model::getFileName", t18, 0},
  {"model::setFileName", t19, 0},
  {"model::getEntities", t20, 1},
  {"model::setEntityName", t21, 0},
  {"model::getEntityName", t22, 0},
  {"model::getPhysicalGroups", t23, 1},
  {"model::getEntitiesForPhysicalGroup", t24, 0},
  {"model::getPhysicalGroupsForEntity", t25, 0},
  {"model::addPhysicalGroup", t26, 2},
  {"model::removePhysicalGroups", t27, 1},
  {"model::setPhysicalName", t28, 0},
  {"model::removePhysicalName", t29, 0},
  {"model::getPhysicalName", t30, 0},
  {"model::setTag", t31, 0},
  {"model::getBoundary", t32, 3},
  {"model::getAdjacencies", t33, 0},
  {"model::getEntitiesInBoundingBox", t34, 1},
  {"model::getBoundingBox", t35, 0},
  {"model::getDimension", t36, 0},
  {"model::addDiscreteEntity", t37, 2},
  {"model::removeEntities", t38, 1},
  {"model::removeEntityName", t39, 0},
  {"model::getType", t40, 0},
  {"model::getParent", t41, 0},
  {"model::getNumberOfPartitions", t42, 0},
  {"model::getPartitions", t43, 0},
  {"model::getValue", t44, 0},
  {"model::getDerivative", t45, 0},
  {"model::getSecondDerivative", t46, 0},
  {"model::getCurvature", t47, 0},
  {"model::getPrincipalCurvatures", t48, 0},
  {"model::getNormal", t49, 0},
  {"model::getParametrization", t50, 0},
  {"model::getParametrizationBounds", t51, 0},
  {"model::isInside", t52, 1},
  {"model::getClosestPoint", t53, 0},
  {"model::reparametrizeOnSurface", t54, 1},
  {"model::setVisibility", t55, 1},
  {"model::getVisibility", t56, 0},
  {"model::setVisibilityPerWindow", t57, 1},
  {"model::setColor", t58, 2},
  {"model::getColor", t59, 0},
  {"model::setCoordinates", t60, 0},
  {"model::mesh::generate", t61, 1},
  {"model::mesh::partition", t62, 2},
  {"model::mesh::unpartition", t63, 0},
  {"model::mesh::optimize", t64, 4},
  {"model::mesh::recombine", t65, 0},
  {"model::mesh::refine", t66, 0},
  {"model::mesh::setOrder", t67, 0},
  {"model::mesh::getLastEntityError", t68, 0},
  {"model::mesh::getLastNodeError", t69, 0},
  {"model::mesh::clear", t70, 1},
  {"model::mesh::reverse", t71, 1},
  {"model::mesh::affineTransform", t72, 1},
  {"model::mesh::getNodes", t73, 4},
  {"model::mesh::getNodesByElementType", t74, 2},
  {"model::mesh::getNode", t75, 0},
  {"model::mesh::setNode", t76, 0},
  {"model::mesh::rebuildNodeCache", t77, 1},
  {"model::mesh::rebuildElementCache", t78, 1},
  {"model::mesh::getNodesForPhysicalGroup", t79, 0},
  {"model::mesh::getMaxNodeTag", t80, 0},
  {"model::mesh::addNodes", t81, 1},
  {"model::mesh::reclassifyNodes", t82, 0},
  {"model::mesh::relocateNodes", t83, 2},
  {"model::mesh::getElements", t84, 2},
  {"model::mesh::getElement", t85, 0},
  {"model::mesh::getElementByCoordinates", t86, 2},
  {"model::mesh::getElementsByCoordinates", t87, 2},
  {"model::mesh::getLocalCoordinatesInElement", t88, 0},
  {"model::mesh::getElementTypes", t89, 2},
  {"model::mesh::getElementType", t90, 1},
  {"model::mesh::getElementProperties", t91, 0},
  {"model::mesh::getElementsByType", t92, 3},
  {"model::mesh::getMaxElementTag", t93, 0},
  {"model::mesh::preallocateElementsByType", t94, 1},
  {"model::mesh::getElementQualities", t95, 3},
  {"model::mesh::addElements", t96, 0},
  {"model::mesh::addElementsByType", t97, 0},
  {"model::mesh::getIntegrationPoints", t98, 0},
  {"model::mesh::getJacobians", t99, 3},
  {"model::mesh::preallocateJacobians", t100, 1},
  {"model::mesh::getJacobian", t101, 0},
  {"model::mesh::getBasisFunctions", t102, 1},
  {"model::mesh::getBasisFunctionsOrientation", t103, 3},
  {"model::mesh::getBasisFunctionsOrientationForElement", t104, 0},
  {"model::mesh::getNumberOfOrientations", t105, 0},
  {"model::mesh::preallocateBasisFunctionsOrientation", t106, 1},
  {"model::mesh::getEdges", t107, 0},
  {"model::mesh::getFaces", t108, 0},
  {"model::mesh::createEdges", t109, 1},
  {"model::mesh::createFaces", t110, 1},
  {"model::mesh::getAllEdges", t111, 0},
  {"model::mesh::getAllFaces", t112, 0},
  {"model::mesh::addEdges", t113, 0},
  {"model::mesh::addFaces", t114, 0},
  {"model::mesh::getKeys", t115, 2},
  {"model::mesh::getKeysForElement", t116, 1},
  {"model::mesh::getNumberOfKeys", t117, 0},
  {"model::mesh::getKeysInformation", t118, 0},
  {"model::mesh::getBarycenters", t119, 2},
  {"model::mesh::preallocateBarycenters", t120, 1},
  {"model::mesh::getElementEdgeNodes", t121, 4},
  {"model::mesh::getElementFaceNodes", t122, 4},
  {"model::mesh::getGhostElements", t123, 0},
  {"model::mesh::setSize", t124, 0},
  {"model::mesh::getSizes", t125, 0},
  {"model::mesh::setSizeAtParametricPoints", t126, 0},
  {"model::mesh::setSizeCallback", t127, 0},
  {"model::mesh::removeSizeCallback", t128, 0},
  {"model::mesh::setTransfiniteCurve", t129, 2},
  {"model::mesh::setTransfiniteSurface", t130, 2},
  {"model::mesh::setTransfiniteVolume", t131, 1},
  {"model::mesh::setTransfiniteAutomatic", t132, 3},
  {"model::mesh::setRecombine", t133, 1},
  {"model::mesh::setSmoothing", t134, 0},
  {"model::mesh::setReverse", t135, 1},
  {"model::mesh::setAlgorithm", t136, 0},
  {"model::mesh::setSizeFromBoundary", t137, 0},
  {"model::mesh::setCompound", t138, 0},
  {"model::mesh::setOutwardOrientation", t139, 0},
  {"model::mesh::removeConstraints", t140, 1},
  {"model::mesh::embed", t141, 0},
  {"model::mesh::removeEmbedded", t142, 1},
  {"model::mesh::getEmbedded", t143, 0},
  {"model::mesh::reorderElements", t144, 0},
  {"model::mesh::renumberNodes", t145, 0},
  {"model::mesh::renumberElements", t146, 0},
  {"model::mesh::setPeriodic", t147, 0},
  {"model::mesh::getPeriodic", t148, 0},
  {"model::mesh::getPeriodicNodes", t149, 1},
  {"model::mesh::getPeriodicKeys", t150, 1},
  {"model::mesh::importStl", t151, 0},
  {"model::mesh::getDuplicateNodes", t152, 1},
  {"model::mesh::removeDuplicateNodes", t153, 1},
  {"model::mesh::splitQuadrangles", t154, 2},
  {"model::mesh::setVisibility", t155, 0},
  {"model::mesh::classifySurfaces", t156, 4},
  {"model::mesh::createGeometry", t157, 1},
  {"model::mesh::createTopology", t158, 2},
  {"model::mesh::addHomologyRequest", t159, 4},
  {"model::mesh::clearHomologyRequests", t160, 0},
  {"model::mesh::computeCrossField", t161, 0},
  {"model::mesh::triangulate", t162, 0},
  {"model::mesh::tetrahedralize", t163, 0},
  {"model::mesh::field::add", t164, 1},
  {"model::mesh::field::remove", t165, 0},
  {"model::mesh::field::list", t166, 0},
  {"model::mesh::field::getType", t167, 0},
  {"model::mesh::field::setNumber", t168, 0},
  {"model::mesh::field::getNumber", t169, 0},
  {"model::mesh::field::setString", t170, 0},
  {"model::mesh::field::getString", t171, 0},
  {"model::mesh::field::setNumbers", t172, 0},
  {"model::mesh::field::getNumbers", t173, 0},
  {"model::mesh::field::setAsBackgroundMesh", t174, 0},
  {"model::mesh::field::setAsBoundaryLayer", t175, 0},
  {"model::geo::addPoint", t176, 2},
  {"model::geo::addLine", t177, 1},
  {"model::geo::addCircleArc", t178, 4},
  {"model::geo::addEllipseArc", t179, 4},
  {"model::geo::addBSpline", t180, 1},
  {"model::geo::addBezier", t181, 1},
  {"model::geo::addPolyline", t182, 1},
  {"model::geo::addCompoundSpline", t183, 2},
  {"model::geo::addCompoundBSpline", t184, 2},
  {"model::geo::addCurveLoop", t185, 2},
  {"model::geo::addCurveLoops", t186, 0},
  {"model::geo::addPlaneSurface", t187, 1},
  {"model::geo::addSurfaceFilling", t188, 2},
  {"model::geo::revolve", t189, 3},
  {"model::geo::twist", t190, 3},
  {"model::geo::extrudeBoundaryLayer", t191, 5},
  {"model::geo::translate", t192, 0},
  {"model::geo::rotate", t193, 0},
  {"model::geo::dilate", t194, 0},
  {"model::geo::mirror", t195, 0},
  {"model::geo::symmetrize", t196, 0},
  {"model::geo::copy", t197, 0},
  {"model::geo::remove", t198, 1},
  {"model::geo::removeAllDuplicates", t199, 0},
  {"model::geo::splitCurve", t200, 0},
  {"model::geo::getMaxTag", t201, 0},
  {"model::geo::setMaxTag", t202, 0},
  {"model::geo::addPhysicalGroup", t203, 2},
  {"model::geo::removePhysicalGroups", t204, 1},
  {"model::geo::synchronize", t205, 0},
  {"model::geo::mesh::setSize", t206, 0},
  {"model::geo::mesh::setTransfiniteCurve", t207, 2},
  {"model::geo::mesh::setTransfiniteSurface", t208, 2},
  {"model::geo::mesh::setTransfiniteVolume", t209, 1},
  {"model::geo::mesh::setRecombine", t210, 1},
  {"model::geo::mesh::setSmoothing", t211, 0},
  {"model::geo::mesh::setReverse", t212, 1},
  {"model::geo::mesh::setAlgorithm", t213, 0},
  {"model::geo::mesh::setSizeFromBoundary", t214, 0},
  {"model::occ::addPoint", t215, 2},
  {"model::occ::addLine", t216, 1},
  {"model::occ::addCircleArc", t217, 1},
  {"model::occ::addCircle", t218, 5},
  {"model::occ::addEllipseArc", t219, 1},
  {"model::occ::addEllipse", t220, 5},
  {"model::occ::addBSpline", t221, 5},
  {"model::occ::addBezier", t222, 1},
  {"model::occ::addWire", t223, 2},
  {"model::occ::addCurveLoop", t224, 1},
  {"model::occ::addRectangle", t225, 2},
  {"model::occ::addDisk", t226, 3},
  {"model::occ::addPlaneSurface", t227, 1},
  {"model::occ::addSurfaceFilling", t228, 12},
  {"model::occ::addBSplineFilling", t229, 2},
  {"model::occ::addBezierFilling", t230, 2},
  {"model::occ::addBSplineSurface", t231, 10},
  {"model::occ::addBezierSurface", t232, 3},
  {"model::occ::addTrimmedSurface", t233, 3},
  {"model::occ::addSurfaceLoop", t234, 2},
  {"model::occ::addVolume", t235, 1},
  {"model::occ::addSphere", t236, 4},
  {"model::occ::addBox", t237, 1},
  {"model::occ::addCylinder", t238, 2},
  {"model::occ::addCone", t239, 2},
  {"model::occ::addWedge", t240, 3},
  {"model::occ::addTorus", t241, 3},
  {"model::occ::addThickSolid", t242, 1},
  {"model::occ::extrude", t243, 3},
  {"model::occ::revolve", t244, 3},
  {"model::occ::addPipe", t245, 1},
  {"model::occ::fillet", t246, 1},
  {"model::occ::chamfer", t247, 1},
  {"model::occ::fuse", t248, 3},
  {"model::occ::intersect", t249, 3},
  {"model::occ::cut", t250, 3},
  {"model::occ::fragment", t251, 3},
  {"model::occ::translate", t252, 0},
  {"model::occ::rotate", t253, 0},
  {"model::occ::dilate", t254, 0},
  {"model::occ::mirror", t255, 0},
  {"model::occ::symmetrize", t256, 0},
  {"model::occ::affineTransform", t257, 0},
  {"model::occ::copy", t258, 0},
  {"model::occ::remove", t259, 1},
  {"model::occ::removeAllDuplicates", t260, 0},
  {"model::occ::healShapes", t261, 7},
  {"model::occ::convertToNURBS", t262, 0},
  {"model::occ::importShapes", t263, 2},
  {"model::occ::importShapesNativePointer", t264, 1},
  {"model::occ::getEntities", t265, 1},
  {"model::occ::getEntitiesInBoundingBox", t266, 1},
  {"model::occ::getBoundingBox", t267, 0},
  {"model::occ::getCurveLoops", t268, 0},
  {"model::occ::getSurfaceLoops", t269, 0},
  {"model::occ::getMass", t270, 0},
  {"model::occ::getCenterOfMass", t271, 0},
  {"model::occ::getMatrixOfInertia", t272, 0},
  {"model::occ::getMaxTag", t273, 0},
  {"model::occ::setMaxTag", t274, 0},
  {"model::occ::synchronize", t275, 0},
  {"model::occ::mesh::setSize", t276, 0},
  {"view::add", t277, 1},
  {"view::remove", t278, 0},
  {"view::getIndex", t279, 0},
  {"view::getTags", t280, 0},
  {"view::addModelData", t281, 3},
  {"view::addHomogeneousModelData", t282, 3},
  {"view::getModelData", t283, 0},
  {"view::getHomogeneousModelData", t284, 0},
  {"view::addListData", t285, 0},
  {"view::getListData", t286, 0},
  {"view::addListDataString", t287, 1},
  {"view::getListDataStrings", t288, 0},
  {"view::setInterpolationMatrices", t289, 3},
  {"view::addAlias", t290, 2},
  {"view::combine", t291, 2},
  {"view::probe", t292, 8},
  {"view::write", t293, 1},
  {"view::setVisibilityPerWindow", t294, 1},
  {"view::option::setNumber", t295, 0},
  {"view::option::getNumber", t296, 0},
  {"view::option::setString", t297, 0},
  {"view::option::getString", t298, 0},
  {"view::option::setColor", t299, 1},
  {"view::option::getColor", t300, 0},
  {"view::option::copy", t301, 0},
  {"plugin::setNumber", t302, 0},
  {"plugin::setString", t303, 0},
  {"plugin::run", t304, 0},
  {"graphics::draw", t305, 0},
  {"fltk::initialize", t306, 0},
  {"fltk::finalize", t307, 0},
  {"fltk::wait", t308, 1},
  {"fltk::update", t309, 0},
  {"fltk::awake", t310, 1},
  {"fltk::lock", t311, 0},
  {"fltk::unlock", t312, 0},
  {"fltk::run", t313, 0},
  {"fltk::isAvailable", t314, 0},
  {"fltk::selectEntities", t315, 1},
  {"fltk::selectElements", t316, 0},
  {"fltk::selectViews", t317, 0},
  {"fltk::splitCurrentWindow", t318, 2},
  {"fltk::setCurrentWindow", t319, 1},
  {"fltk::setStatusMessage", t320, 1},
  {"fltk::showContextWindow", t321, 0},
  {"fltk::openTreeItem", t322, 0},
  {"fltk::closeTreeItem", t323, 0},
  {"parser::getNames", t324, 1},
  {"parser::setNumber", t325, 0},
  {"parser::setString", t326, 0},
  {"parser::getNumber", t327, 0},
  {"parser::getString", t328, 0},
  {"parser::clear", t329, 1},
  {"parser::parse", t330, 0},
  {"onelab::set", t331, 1},
  {"onelab::get", t332, 2},
  {"onelab::getNames", t333, 1},
  {"onelab::setNumber", t334, 0},
  {"onelab::setString", t335, 0},
  {"onelab::getNumber", t336, 0},
  {"onelab::getString", t337, 0},
  {"onelab::getChanged", t338, 0},
  {"onelab::setChanged", t339, 0},
  {"onelab::clear", t340, 1},
  {"onelab::run", t341, 2},
  {"logger::write", t342, 1},
  {"logger::start", t343, 0},
  {"logger::get", t344, 0},
  {"logger::stop", t345, 0},
  {"logger::getWallTime", t346, 0},
  {"logger::getCpuTime", t347, 0},
  {"logger::getLastError", t348, 0},
};
